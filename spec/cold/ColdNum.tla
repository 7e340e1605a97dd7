------------------------------ MODULE ColdNum ------------------------------
(* Numeric oracle: these operators are overridden in Java (java/ColdNum.java), which asks the C oracle
   (native/num.c).  Decision operators answer with the set of admissible Booleans.                      *)
EXTENDS Integers, Sequences
NumFit(sid, os, df)       == -1
NumStart(sid, os)         == TRUE   \* the usable observations: fixes the noise levels of the series
NumFitBands(sid, per, os) == -1     \* four-coefficient model with own observations per band (fewer than 12 optical ones: saturated)
NumRes(sid, f, o)         == -1
NumResNear(sid, f, o)     == -1
NumConfirm(sid, rs)       == BOOLEAN
NumTail(sid, rs)          == BOOLEAN
NumExtreme(r)             == BOOLEAN
NumFar(r)                 == BOOLEAN    \* off by more than the reconstruction's limit
NumStable(sid, f)         == BOOLEAN
NumMasks(sid, os, years)  == {{}}
NumCM(sid, rs)            == <<0, 0>>
NumMatchFit(sid, k, f)    == TRUE       \* does record k of the implementation carry this fit?
NumMatchMag(sid, k, rs, sign) == TRUE   \* ... and this median deviation?
NumReport(sid, bad)       == TRUE
NumBudget(sid)            == TRUE
NumNote(sid, d, what)     == TRUE
NumFlush(x)               == TRUE
=============================================================================
