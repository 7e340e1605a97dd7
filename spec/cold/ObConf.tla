------------------------------- MODULE ObConf -------------------------------
(* Conformance of obcold_reconstruct with ObCold.tla (see ColdConf.tla).                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, ColdNum, Pixel, Records
Data == JsonDeserialize(IOEnv.VERIF_JSON)
VARIABLES sid, obs, todo, last, phase, segs, err

cDates(x) == Data[x].dates
cRejected(x) == BadInput(Data[x])
cClear(x) == ClearSum(Data[x])
cUsable(x) == LET u == UsableObs(Data[x]) IN IF NumStart(x, u) THEN u ELSE u
SnowFit(x, ks) == NumFitBands(x, [c \in 1..7 |-> SnowBand(Data[x], ks, c)], ks)
cFallback(x) ==
  IF MostlySnow(Data[x])
  THEN LET ks == SnowObs(Data[x]) IN [cat |-> 54, obs |-> IF Len(ks) < 12 THEN <<>> ELSE ks, fit |-> IF Len(ks) < 12 THEN -1 ELSE SnowFit(x, ks)]
  ELSE LET ks == UnclearObs(Data[x]) IN [cat |-> 44, obs |-> IF Len(ks) < 12 THEN <<>> ELSE ks, fit |-> IF Len(ks) < 12 THEN -1 ELSE NumFitBands(x, [c \in 1..7 |-> ks], ks)]
cConse(x) == Data[x].conse
cBreaks(x) == Data[x].breaks
Far(rs, t) == {p \in DOMAIN rs : t \in NumFar(rs[p])}
cScreens(x, rs) == LET sure == {p \in DOMAIN rs : FALSE \notin NumFar(rs[p])}
                       maybe == Far(rs, TRUE) \ sure
                   IN {sure \cup X : X \in SUBSET maybe}
M == INSTANCE ObCold WITH SegMin <- 6, ScreenMin <- 12, Mid <- 18, Full <- 24, YearQ <- 1461,
       Sids <- DOMAIN Data, Dates <- cDates, Rejected <- cRejected, ClearCount <- cClear, Usable <- cUsable, Fallback <- cFallback,
       Conse <- cConse, Breaks <- cBreaks, Masks <- NumMasks, Fit <- NumFit, Res <- NumRes, Screens <- cScreens

Real(k) == Data[sid].recs[k]
NReal   == Len(Data[sid].recs)
Compare(k, g) ==
  IF k > NReal THEN {<<k, g.kind, "extra">>}
  ELSE LET r == Real(k)
           f(name, a, c) == IF a = c THEN {} ELSE {<<k, g.kind, name>>}
       IN f("ts", r[1], g.ts) \cup f("te", r[2], g.te) \cup f("tb", r[3], g.tb) \cup f("prob", r[4], g.prob)
          \cup f("num", r[5], g.num) \cup f("cat", r[6], g.cat)
          \cup (IF NumMatchFit(sid, k, g.fit) THEN {} ELSE {<<k, g.kind, "fit">>})
          \cup (IF NumMatchMag(sid, k, g.mag, g.sign) THEN {} ELSE {<<k, g.kind, "mag">>})
May == LET p == Data[sid]
           ks == IF (\E k \in DOMAIN p.recs : p.recs[k][6] \in {44, 54})
                 THEN (IF MostlySnow(p) THEN SnowObs(p) ELSE Pick(p.qa, LAMBDA k : InRange(p, k))) ELSE UsableObs(p)
       IN [k \in 1..Len(ks) |-> p.dates[ks[k]]]
Init == M!Init
Next == M!Next
Final == UNION {Compare(k, segs[k]) : k \in DOMAIN segs}
         \cup (IF Len(segs) < NReal THEN {<<Len(segs) + 1, "none", "missing">>} ELSE {})
         \cup ShapeFlags(Data[sid].recs, May)
         \cup (IF err = Data[sid].err THEN {} ELSE {<<0, "error", "error">>})
Verdict == phase = "done" => NumReport(sid, Final)
Budget == NumBudget(sid)
Flush == NumFlush(TLCGet("distinct"))
Spec == Init /\ [][Next]_(M!vars)
=============================================================================
