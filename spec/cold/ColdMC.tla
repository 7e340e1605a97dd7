------------------------------- MODULE ColdMC -------------------------------
(* Exhaustive exploration of the COLD machine at small scale: every arrangement of short and long steps
   between observations, and every answer the numeric tests could give.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Records
CONSTANTS NObs, Steps, ConseN, GapN, MaskMax
VARIABLES sid, obs, i, s, dense, trained, phase, b, brk, R, fit, cur, skip, preEnd, first, W, err, segs, cm

mSids == [1..(NObs - 1) -> Steps]
mDates(x) == FoldLeft(LAMBDA acc, k : Append(acc, acc[k] + x[k]), <<10>>, [k \in 1..(NObs - 1) |-> k])
mUsable(x) == [k \in 1..NObs |-> k]
mNone(x) == [cat |-> 44, obs |-> <<>>, fit |-> <<>>]
mMasks(x, os, y) == {{}} \cup (IF MaskMax > 0 THEN {{k} : k \in DOMAIN os} ELSE {})
mFit(x, os, df) == <<df, os>>
mRes(x, f, o) == o
mBool1(a) == BOOLEAN
mBool2(a, c) == BOOLEAN
M == INSTANCE Cold WITH MinClear <- 3, StartMin <- 2, Mid <- 4, Full <- 5, YearQ <- 16, CmFill <- -1,
       Sids <- mSids, Dates <- mDates, Rejected <- LAMBDA x : FALSE, ClearCount <- LAMBDA x : 5, Usable <- mUsable, Fallback <- mNone,
       Conse <- LAMBDA x : ConseN, Gap <- LAMBDA x : GapN, CmOn <- LAMBDA x : FALSE, CmStart <- LAMBDA x : 0, CmInterval <- LAMBDA x : 1,
       Masks <- mMasks, Fit <- mFit, Stable <- mBool2, Res <- mRes, ResNear <- mRes, Confirm <- mBool2, TailAbove <- mBool2, Extreme <- mBool1,
       CM <- LAMBDA x, r : <<0, 0>>
Spec == M!Spec
D(o) == mDates(sid)[o]
AllDates == mDates(sid)
Recs == [k \in DOMAIN segs |-> <<segs[k].ts, segs[k].te, segs[k].tb, segs[k].prob, segs[k].num, segs[k].cat>>]

(* C01 *)
WellFormed == phase = "done" => ShapeFlags(Recs, AllDates) = {}
(* C04: a confirmed break rests on Conse observations in a row, the first of which dates it *)
Breaks == \A k \in DOMAIN segs : segs[k].kind = "break" =>
  /\ Len(segs[k].mag) = ConseN /\ D(segs[k].mag[1]) = segs[k].tb
  /\ \A j \in 1..(ConseN - 1) : segs[k].mag[j] < segs[k].mag[j + 1]
  /\ segs[k].prob = 100
(* C05: the open record's probability counts the observations said to deviate at the end of the series *)
OpenEnd == \A k \in DOMAIN segs : segs[k].kind = "open" =>
  /\ k = Len(segs) /\ segs[k].prob = (Len(segs[k].mag) * 100) \div ConseN
  /\ segs[k].mag # <<>> => D(segs[k].mag[1]) = segs[k].tb
(* C08: start records come first, end records last *)
Kinds == \A k \in DOMAIN segs :
  /\ segs[k].kind = "start" => k = 1 /\ segs[k].num >= 2
  /\ segs[k].kind = "end" => k = Len(segs) /\ segs[k].num >= 2
  /\ segs[k].kind \in {"break", "start"} \/ k = Len(segs)
(* C03: a record's model rests on the observations of its span only, and its size follows their number *)
Models == \A k \in DOMAIN segs : LET os == segs[k].fit[2] IN
  /\ \A j \in DOMAIN os : D(os[j]) >= segs[k].ts /\ D(os[j]) <= segs[k].te
  /\ segs[k].kind \in {"start", "end"} => segs[k].fit[1] = 4 /\ Len(os) = segs[k].num
  /\ segs[k].kind \in {"break", "open"} => segs[k].num = Len(os) /\ (segs[k].cat = segs[k].fit[1])
(* what is left of the series only shrinks *)
Ordered == \A p \in 1..(Len(obs) - 1) : obs[p] < obs[p + 1]
Window == s >= 1 /\ i <= NObs + 1
Terminates == <>(phase = "done")
=============================================================================
