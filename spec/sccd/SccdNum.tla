------------------------------ MODULE SccdNum ------------------------------
(* Numeric oracle of S-CCD, overridden in Java (java/SccdNum.java) which asks native/sccdnum.c. *)
EXTENDS Integers, Sequences
NumStart(sid, m)          == TRUE     \* noise levels of the pixel
NumFit4(sid, os)          == -1
NumStable(sid, f)         == BOOLEAN
NumOff(sid, f, o)         == -1
NumKOff(sid, k, o)        == -1
NumConfirm(sid, rs)       == BOOLEAN
NumExtreme(r)             == BOOLEAN
NumKExtreme(r)            == BOOLEAN
NumGate(sid, r)           == BOOLEAN
NumQuiet(sid, r)          == BOOLEAN
NumStronger(sid, a, b)    == BOOLEAN
NumKInit(sid, os, next)   == -1
NumKSnow(sid, os)         == -1
NumKLoad(sid)             == -1
NumKStep(sid, k, o, next) == -1
NumKSkip(sid, k, o, next) == -1
NumMasks(sid, os, years)  == {{}}
NumCM(sid, rs)            == <<0, 0, 0, 0>>      \* intervals: smallest deviation, mean angle (hundredfold)
NumMatchFit(sid, k, f)    == TRUE
NumMatchKf(sid, k, f, o)  == TRUE
NumMatchPin(sid, k, f, o) == TRUE
NumMatchModel(sid, f, o)  == 0
NumMatchMag(sid, k, rs, sign) == TRUE
NumReport(sid, bad)       == TRUE
NumBudget(sid)            == TRUE
NumFlush(x)               == TRUE
=============================================================================
