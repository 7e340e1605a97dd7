------------------------------- MODULE SccdMC -------------------------------
(* Exhaustive exploration of one S-CCD call at small scale, from every pack a pixel can have: every
   arrangement of short and long steps between observations, every answer of the numeric tests.  Since the
   packs handed in are all those the invariants allow, what holds of the pack handed out holds after any
   sequence of calls.                                                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS NObs, Steps, Conses, Modes, MaskMax, WithPins
VARIABLES sid, obs, i, s, dense, prev, trained, phase, b, fit, R, km, ts, num, saved, changed, segs, pins, mode, queue, err

Day0 == 723896        \* two weeks before a new year
TailN == 3
Less(a, c) == IF a < c THEN a ELSE c
Shapes(n, m, c) == [steps : [1..(n - 1) -> Steps], conse : {c}, mode : {m}, recs : IF m = 5 THEN {1} ELSE IF m \in {3, 4} THEN {0} ELSE {0, 1},
                    stored : IF m = 0 THEN {0} ELSE IF m \in {1, 11} THEN {c} ELSE IF m = 3 THEN {TailN} ELSE IF m = 5 THEN c..Less(n, 3) ELSE 0..Less(n, 3),
                    pin : IF WithPins /\ m = 0 THEN BOOLEAN ELSE {FALSE}, snow : IF m = 0 THEN BOOLEAN ELSE {m \in {3, 4}}]
Calls == UNION {Shapes(n, m, c) : n \in 1..NObs, m \in Modes, c \in Conses}
Ok(x) == x.stored <= Len(x.steps) + 1 /\ (x.snow => x.recs = 0) /\ (x.mode = 0 => x.recs = 0) /\ (x.mode = 4 => x.stored < 4)
mSids == {x \in Calls : Ok(x)}
mDates(x) == FoldLeft(LAMBDA acc, k : Append(acc, acc[k] + x.steps[k]), <<Day0>>, [k \in 1..Len(x.steps) |-> k])
mMasks(x, os, y) == {{}} \cup (IF MaskMax > 0 THEN {{k} : k \in DOMAIN os} ELSE {})
Past == 0
mLoad(x) == <<Past>>
mBool1(a) == BOOLEAN
mBool2(a, c) == BOOLEAN
mBool3(a, c, d) == BOOLEAN
\* a state-space model is the sequence of observations it has seen
mInit(x, os, nx) == os
mStep(x, k, o, nx) == Append(k, o)
mSkip(x, k, o, nx) == k
\* the same observation always gets the same answer about the gate: the second is not beyond it, an even one is, the others may be
mGate(x, o) == IF o = 2 THEN {FALSE} ELSE IF o % 2 = 0 THEN {TRUE} ELSE BOOLEAN
mOff(x, f, o) == o
M == INSTANCE Sccd WITH MinObs <- 3, StartMin <- 2, SnowMin <- 4, TailMax <- TailN, QueueMax <- 4, YearQ <- 16, Delay <- 4, PinMin <- 2,
       Sids <- mSids, Dates <- mDates, Rejected <- LAMBDA x : FALSE, ModeIn <- LAMBDA x : x.mode, IsSnow <- LAMBDA x : x.snow, Stored <- LAMBDA x : x.stored,
       RecsIn <- LAMBDA x : x.recs, Conse <- LAMBDA x : x.conse, LoadTs <- LAMBDA x : Day0 - 20, LoadNum <- LAMBDA x : 5, LoadModel <- mLoad,
       LoadTail <- LAMBDA x : Day0, Pinpoint <- LAMBDA x : x.pin,
       Masks <- mMasks, Fit4 <- LAMBDA x, os : os, Stable <- mBool2, Off <- mOff, Confirm <- mBool2, Extreme <- mBool1,
       KInit <- mInit, KSnow <- LAMBDA x, os : os, KStep <- mStep, KSkip <- mSkip, KOff <- mOff, KConfirm <- mBool2, KExtreme <- mBool1,
       Gate <- mGate, Quiet <- mGate, Stronger <- LAMBDA x, a, c : {a[1] > c[1]}
Spec == M!Spec
D(o) == mDates(sid)[o]
All == Len(mDates(sid))
Seen == [k \in 1..All |-> k]
Done == phase = "done"
Ended == Done /\ saved.kind = "end"
Breaks == {k \in DOMAIN segs : segs[k].kind = "break"}
Rising(q) == \A p \in 1..(Len(q) - 1) : q[p] < q[p + 1]

(* S01: the parts of the pack go with its mode *)
Parts == Done =>
  /\ mode \in {0, 1, 11, 2, 12, 3, 4, 5}
  /\ (mode \in {1, 11, 3, 5}) <=> (saved.kind # "none")
  /\ mode \in {1, 11, 3, 0} => queue = <<>>
  /\ Len(queue) <= 4 /\ Rising(queue) /\ (queue # <<>> => queue[Len(queue)] = All)
  /\ mode \in {2, 12, 5} /\ ~sid.snow /\ All > sid.stored => queue # <<>>
  /\ sid.snow <=> mode \in {3, 4}
  /\ saved.kind \in {"end", "break"} => Len(saved.tail) = sid.conse
  /\ mode = 5 => (changed \/ sid.mode = 5) /\ Len(queue) >= sid.conse
  /\ mode = 0 => All = 0 \/ (sid.mode = 0 /\ All = sid.stored)
(* S01: how modes follow one another *)
Follows == Done => CASE sid.mode = 0 -> mode \in {0, 1, 12, 3, 4}
                     [] sid.mode \in {1} -> mode \in {1, 5}
                     [] sid.mode \in {11} -> mode \in {1, 11, 12}
                     [] sid.mode \in {2} -> mode \in {2, 1, 5}
                     [] sid.mode \in {12} -> mode \in {12, 1}
                     [] sid.mode = 5 -> mode \in {5, 12}
                     [] sid.mode = 3 -> mode = 3
                     [] sid.mode = 4 -> mode \in {3, 4}
                     [] OTHER -> FALSE
(* S02: records in time order; a break rests on Conse observations in a row the first of which dates it *)
Records ==
  /\ \A k \in DOMAIN segs : segs[k].ts <= segs[k].tb /\ \E o \in 1..All : D(o) = segs[k].tb
  /\ \A k \in 1..(Len(segs) - 1) : segs[k].tb <= segs[k + 1].ts
  /\ \A k \in Breaks : Len(segs[k].mag) = sid.conse /\ D(segs[k].mag[1]) = segs[k].tb /\ Rising(segs[k].mag)
  /\ \A k \in DOMAIN segs : segs[k].kind = "start" => k = 1 /\ sid.recs = 0
  /\ sid.snow => segs = <<>>
(* S02, S06: a model has seen observations in order, none of them before the segment starts nor after the break *)
Models ==
  /\ \A k \in Breaks : LET q == SelectSeq(segs[k].fit, LAMBDA o : o # Past) IN
       /\ Rising(q) /\ (q # <<>> => D(q[Len(q)]) < segs[k].tb)
       /\ q # <<>> /\ Len(q) = Len(segs[k].fit) => D(q[1]) = segs[k].ts /\ segs[k].num = Len(q)
       /\ Len(q) < Len(segs[k].fit) => segs[k].ts = Day0 - 20 /\ segs[k].num = 5 + Len(q)
(* S06: what is handed out with a model are the latest observations, which it has not seen *)
Latest == Ended =>
  /\ Rising(saved.tail) /\ saved.tail[sid.conse] = All
  /\ LET q == SelectSeq(saved.k, LAMBDA o : o # Past) IN
       /\ Rising(q) /\ (q # <<>> => q[Len(q)] < saved.tail[1])
       /\ saved.num = (IF Len(q) = Len(saved.k) THEN Len(q) ELSE 5 + Len(q))
       /\ saved.ts = (IF Len(q) = Len(saved.k) THEN D(q[1]) ELSE Day0 - 20)
  /\ \A j \in DOMAIN saved.run : saved.run[j] # 2 /\ saved.run[j] = All + 1 - j   \* one after the other up to the latest
(* S08 *)
SnowPack == Done /\ mode = 3 /\ ~(saved.kind = "none") => saved.kind = "snow" /\ Len(saved.tail) = TailN /\ saved.tail[TailN] = All
(* S10: pinpoint anomalies: one a year, within the series *)
Pins == /\ \A k \in DOMAIN pins : Len(pins[k].tail) = sid.conse /\ D(pins[k].tail[1]) = pins[k].tb
        /\ \A k \in 1..(Len(pins) - 1) : M!YearOf(pins[k].tb) < M!YearOf(pins[k + 1].tb)
        /\ pins # <<>> => sid.pin /\ sid.conse >= 2
Ordered == Rising(obs)
Terminates == <>Done
=============================================================================
