------------------------------ MODULE ColdConf ------------------------------
(* Conformance: run the machine of Cold.tla on the usable observations of real inputs and compare every
   record it emits with the record the implementation returned.  Disagreements are collected as
   <<record, kind, field>>; the harness maps them to properties.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, ColdNum, Pixel, Records
Data == JsonDeserialize(IOEnv.VERIF_JSON)
VARIABLES sid, obs, i, s, dense, trained, phase, b, brk, R, fit, cur, skip, preEnd, first, W, err, segs, cm, bad

cDates(x) == Data[x].dates
cRejected(x) == BadInput(Data[x])
cClear(x) == ClearSum(Data[x])
cUsable(x) == LET u == UsableObs(Data[x]) IN IF NumStart(x, u) THEN u ELSE u
SnowFit(x, ks) == NumFitBands(x, [c \in 1..7 |-> SnowBand(Data[x], ks, c)], ks)
cFallback(x) ==
  IF MostlySnow(Data[x])
  THEN LET ks == SnowObs(Data[x]) IN [cat |-> 54, obs |-> IF Len(ks) < 12 THEN <<>> ELSE ks, fit |-> IF Len(ks) < 12 THEN -1 ELSE SnowFit(x, ks)]
  ELSE LET ks == UnclearObs(Data[x]) IN [cat |-> 44, obs |-> IF Len(ks) < 12 THEN <<>> ELSE ks, fit |-> IF Len(ks) < 12 THEN -1 ELSE NumFitBands(x, [c \in 1..7 |-> ks], ks)]
cConse(x) == Data[x].conse
cGap(x) == Data[x].gap
cCmOn(x) == Data[x].cmon
cCmStart(x) == Data[x].cmstart
cCmInterval(x) == Data[x].cmint
M == INSTANCE Cold WITH MinClear <- 12, StartMin <- 6, Mid <- 18, Full <- 24, YearQ <- 1461, CmFill <- -9999,
       Sids <- DOMAIN Data, Dates <- cDates, Rejected <- cRejected, ClearCount <- cClear, Usable <- cUsable, Fallback <- cFallback, Conse <- cConse, Gap <- cGap,
       CmOn <- cCmOn, CmStart <- cCmStart, CmInterval <- cCmInterval,
       Masks <- NumMasks, Fit <- NumFit, Stable <- NumStable, Res <- NumRes, ResNear <- NumResNear,
       Confirm <- NumConfirm, TailAbove <- NumTail, Extreme <- NumExtreme, CM <- NumCM

Real(k) == Data[sid].recs[k]        \* <<t_start, t_end, t_break, prob, num_obs, category>>
NReal   == Len(Data[sid].recs)

Compare(k, g) ==
  IF k > NReal THEN {<<k, g.kind, "extra">>}
  ELSE LET r == Real(k)
           f(name, a, c) == IF a = c THEN {} ELSE {<<k, g.kind, name>>}
       IN f("ts", r[1], g.ts) \cup f("te", r[2], g.te) \cup f("tb", r[3], g.tb) \cup f("prob", r[4], g.prob)
          \cup f("num", r[5], g.num) \cup f("cat", r[6], g.cat)
          \cup (IF NumMatchFit(sid, k, g.fit) THEN {} ELSE {<<k, g.kind, "fit">>})
          \cup (IF NumMatchMag(sid, k, g.mag, g.sign) THEN {} ELSE {<<k, g.kind, "mag">>})

(* one change-magnitude cell: some candidate explains the value and the date, and nothing larger was missed *)
CellOk(v, d, cand) ==
  \E c \in cand : c[3] = d /\ c[1] <= v /\ v <= c[2] /\ \A e \in cand : e[1] <= v
CmBad ==
  IF ~Data[sid].cmon THEN {}
  ELSE LET real == Data[sid].cm   \* sequence of <<cell, value, date>> of the cells not holding fill
           cells == {real[k][1] : k \in DOMAIN real}
           asked == {k \in DOMAIN cm : k >= 0 /\ k < Data[sid].cmn}   \* periods that were asked for
       IN (IF cells = asked THEN {} ELSE {<<0, "cm", "cells">>})
          \cup UNION {IF real[k][1] \notin DOMAIN cm \/ CellOk(real[k][2], real[k][3], cm[real[k][1]]) THEN {} ELSE {<<0, "cm", "value">>} : k \in DOMAIN real}

(* dates a record may carry *)
May == LET p == Data[sid]
           ks == IF ClearSum(p) >= 24 THEN UsableObs(p) ELSE IF MostlySnow(p) THEN SnowObs(p) ELSE Pick(p.qa, LAMBDA k : InRange(p, k))
       IN [k \in 1..Len(ks) |-> p.dates[ks[k]]]
Shape == ShapeFlags(Data[sid].recs, May)
\* the harness builds variants of an input from its own idea of the usable observations: it must be this one
HarnessOk == "usable" \notin DOMAIN Data[sid] \/ Assert(Data[sid].usable = UsableObs(Data[sid]), <<"usable", sid>>)

Init == M!Init /\ bad = {} /\ HarnessOk
Next == /\ M!Next
        /\ bad' = IF Len(segs') > Len(segs) THEN bad \cup Compare(Len(segs'), segs'[Len(segs')]) ELSE bad
Final == bad \cup (IF Len(segs) < NReal THEN {<<Len(segs) + 1, "none", "missing">>} ELSE {}) \cup Shape \cup CmBad \cup (IF err = Data[sid].err THEN {} ELSE {<<0, "error", "error">>})
Verdict == phase = "done" => NumReport(sid, Final)
Budget == NumBudget(sid)
Flush == NumFlush(TLCGet("distinct"))
Spec == Init /\ [][Next]_<<M!vars, bad>>
=============================================================================
