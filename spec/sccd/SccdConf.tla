------------------------------ MODULE SccdConf ------------------------------
(* Conformance: run one call of Sccd.tla on real inputs and compare the pack it hands out with the one the
   implementation returned.  Disagreements are collected as <<record, kind, field>>.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SccdNum, Pixel
Data == JsonDeserialize(IOEnv.VERIF_JSON)
VARIABLES sid, obs, i, s, dense, prev, trained, phase, b, fit, R, km, ts, num, saved, changed, segs, pins, mode, queue, err, bad

(* which observations take part: the stored ones, then those of the input that are usable *)
BadQa(p) == \E k \in 1..Len(p.qa) : p.qa[k] \notin {Clear, Water, Shadow, Snow, Cloud, FillQa}
SnowCall(p) == p.mode \in {3, 4} \/ (p.mode = 0 /\ MostlySnow(p))
NewObs(p) ==
  LET ks == IF SnowCall(p) THEN SnowObs(p) ELSE Pick(p.qa, LAMBDA k : p.qa[k] \in {Clear, Water} /\ InRange(p, k))
      last == IF p.sdates = <<>> THEN 0 ELSE p.sdates[Len(p.sdates)]
      step(acc, k) == IF p.dates[k] = (IF acc = <<>> THEN last ELSE p.dates[acc[Len(acc)]]) THEN acc ELSE Append(acc, k)
  IN FoldLeft(step, <<>>, ks)
Fresh == [x \in DOMAIN Data |-> NewObs(Data[x])]
NStored(x) == Len(Data[x].sdates)
Band(x, c, o) == IF o <= NStored(x) THEN Data[x].sbands[c][o] ELSE Data[x].bands[c][Fresh[x][o - NStored(x)]]
AllDates == [x \in DOMAIN Data |-> Data[x].sdates \o [k \in 1..Len(Fresh[x]) |-> Data[x].dates[Fresh[x][k]]]]
cDates(x) == AllDates[x]

(* noise level of a band: median step between successive observations, measured once per pixel *)
Abs(v) == IF v < 0 THEN -v ELSE v
Noise(x, c) ==
  LET n == Len(cDates(x))
      d == Sorted([k \in 1..(n - 1) |-> Abs(Band(x, c, k + 1) - Band(x, c, k))])
      h == Len(d) \div 2
  IN IF Len(d) % 2 = 1 THEN d[h + 1] ELSE (d[h] + d[h + 1]) \div 2
MinRmse == [x \in DOMAIN Data |->
  IF Data[x].mode = 0 /\ ~SnowCall(Data[x]) /\ Data[x].nin = 0 /\ Len(cDates(x)) > 1 THEN [c \in 1..6 |-> Noise(x, c)]
  ELSE IF Data[x].mode = 0 /\ ~SnowCall(Data[x]) /\ Data[x].nin = 0 /\ Len(cDates(x)) = 1 THEN [c \in 1..6 |-> Band(x, c, 1)]  \* nothing to compare with: its values
  ELSE Data[x].minin]

\* detection needs a year of observations
TooShort(p) == p.detect /\ 4 * (p.dates[Len(p.dates)] - p.dates[1]) < 1461
cRejected(x) == BadQa(Data[x]) \/ TooShort(Data[x])
cMode(x) == Data[x].mode
cSnow(x) == SnowCall(Data[x])
cRecs(x) == Data[x].nin
cConse(x) == Data[x].conse
cLoadTs(x) == Data[x].min.ts
cLoadNum(x) == Data[x].min.num
cLoadTail(x) == Data[x].min.dates[1]
cPin(x) == Data[x].pin
M == INSTANCE Sccd WITH MinObs <- 18, StartMin <- 6, SnowMin <- 18, TailMax <- 8, QueueMax <- 240, YearQ <- 1461, Delay <- 15, PinMin <- 3,
       Sids <- DOMAIN Data, Dates <- cDates, Rejected <- cRejected, ModeIn <- cMode, IsSnow <- cSnow, Stored <- NStored, RecsIn <- cRecs,
       Conse <- cConse, LoadTs <- cLoadTs, LoadNum <- cLoadNum, LoadModel <- NumKLoad, LoadTail <- cLoadTail, Pinpoint <- cPin,
       Masks <- NumMasks, Fit4 <- NumFit4, Stable <- NumStable, Off <- NumOff, Confirm <- NumConfirm, Extreme <- NumExtreme,
       KInit <- NumKInit, KSnow <- NumKSnow, KStep <- NumKStep, KSkip <- NumKSkip, KOff <- NumKOff, KConfirm <- NumConfirm,
       KExtreme <- NumKExtreme, Gate <- NumGate, Quiet <- NumQuiet, Stronger <- NumStronger

X == Data[sid]
Out == X.out
f(k, kind, name, a, c) == IF a = c THEN {} ELSE {<<k, kind, name>>}
Row(o) == <<cDates(sid)[o], Band(sid, 1, o), Band(sid, 2, o), Band(sid, 3, o), Band(sid, 4, o), Band(sid, 5, o), Band(sid, 6, o)>>
Rows(q) == [k \in DOMAIN q |-> Row(q[k])]
ObsOf(date) == CHOOSE o \in DOMAIN cDates(sid) : cDates(sid)[o] = date
Within(v, lo, hi) == lo <= v /\ v <= hi

CompareRec(g) ==
  LET k == X.nin + Len(segs') IN
  IF k > Len(Out.recs) THEN {<<k, g.kind, "extra">>}
  ELSE LET r == Out.recs[k] IN
       f(k, g.kind, "ts", r[1], g.ts) \cup f(k, g.kind, "tb", r[2], g.tb) \cup f(k, g.kind, "num", r[3], g.num)
       \cup f(k, g.kind, "fit", TRUE, IF g.kind = "start" THEN NumMatchFit(sid, k, g.fit) ELSE NumMatchKf(sid, k, g.fit, ObsOf(g.tb)))
       \cup f(k, g.kind, "mag", TRUE, NumMatchMag(sid, k, g.mag, IF g.kind = "start" THEN -1 ELSE 1))

CompareModel ==
  IF saved.kind = "none" THEN f(1000, "model", "there", FALSE, Out.model.has)
  ELSE IF ~Out.model.has THEN {<<1000, "model", "there">>}
  ELSE IF saved.kind = "same" THEN f(1000, "model", "same", TRUE, Out.model.same)
  ELSE LET m == Out.model
           n == Len(saved.tail)
           bits == NumMatchModel(sid, saved.k, saved.tail[n])
           cmv == IF saved.run = <<>> THEN <<-9999, -9999, -9999, -9999>> ELSE NumCM(sid, saved.run)
       IN f(1000, "model", "ts", m.ts, saved.ts) \cup f(1000, "model", "num", m.num, saved.num)
          \cup f(1000, "model", "tail", m.tail, [k \in 1..8 |-> IF k <= n THEN Row(saved.tail[k]) ELSE <<723742, 0, 0, 0, 0, 0, 0>>])
          \cup f(1000, "model", "coefs", bits % 2, 0) \cup f(1000, "model", "cov", (bits \div 2) % 2, 0)
          \cup f(1000, "model", "noise", (bits \div 4) % 2, 0) \cup f(1000, "model", "sum", (bits \div 8) % 2, 0)
          \cup f(1000, "model", "run", m.run, Len(saved.run))
          \cup f(1000, "model", "cm", TRUE, Within(m.cm, cmv[1], cmv[2]))
          \cup f(1000, "model", "angle", TRUE, Within(m.angle, cmv[3], cmv[4]))

PinOk(k, g) ==
  LET r == Out.pins[k]
      n == Len(g.tail)
      cmv(j) == NumCM(sid, SubSeq(g.run, 1, j))
  IN /\ r.tb = g.tb
     /\ r.tail = [j \in 1..8 |-> IF j <= n THEN Row(g.tail[j]) ELSE <<723742, 0, 0, 0, 0, 0, 0>>]
     /\ \A j \in 1..n : Within(r.cm[j], cmv(j)[1], cmv(j)[2]) /\ Within(r.angle[j], cmv(j)[3], cmv(j)[4])
     /\ NumMatchPin(sid, k, g.k, g.tail[1])
ComparePins ==
  IF ~X.pin THEN {}
  ELSE IF Len(pins) # Len(Out.pins) THEN {<<2000, "pin", "count">>}
  ELSE UNION {IF PinOk(k, pins[k]) THEN {} ELSE {<<2000 + k, "pin", "record">>} : k \in DOMAIN pins}

Init == M!Init /\ bad = {} /\ NumStart(sid, MinRmse[sid]) /\ Assert(Fresh[sid] = X.fresh, <<"fresh", sid>>)
Next == /\ M!Next
        /\ bad' = IF Len(segs') > Len(segs) THEN bad \cup CompareRec(segs'[Len(segs')]) ELSE bad
Final ==
  IF err # X.err THEN {<<0, "error", "error">>}
  ELSE IF err THEN {}
  ELSE bad \cup (IF X.nin + Len(segs) < Len(Out.recs) THEN {<<X.nin + Len(segs) + 1, "none", "missing">>} ELSE {})
       \cup f(998, "records", "grown", TRUE, Out.grown) \cup f(998, "input", "kept", TRUE, Out.kept)
       \cup f(999, "mode", "mode", Out.mode, mode)
       \cup (IF Out.mode = mode THEN f(1000, "queue", "queue", Out.queue, Rows(queue)) \cup CompareModel ELSE {})
       \cup f(1001, "noise", "minrmse", Out.minrmse, MinRmse[sid])
       \cup ComparePins
Verdict == phase = "done" => NumReport(sid, Final)
Budget == NumBudget(sid)
Flush == NumFlush(TLCGet("distinct"))
Spec == Init /\ [][Next]_<<M!vars, bad>>
=============================================================================
