-------------------------------- MODULE ObMC --------------------------------
(* Exhaustive exploration of the reconstruction machine at small scale: every placement of up to MaxBreaks
   break dates (in any order, repeated, outside the series, non-positive), every answer of the screening. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Records
CONSTANTS NObs, MaxBreaks, ConseN
VARIABLES sid, obs, todo, last, phase, segs, err

BDates == {0, 4, 7, 10, 11, 13, 15, 18, 22, 40}
mSids == UNION {[1..n -> BDates] : n \in 1..MaxBreaks}
mDates(x) == [k \in 1..NObs |-> 8 + 2 * k]
mUsable(x) == [k \in 1..NObs |-> k]
mNone(x) == [cat |-> 44, obs |-> <<>>, fit |-> <<>>]
mMasks(x, os, y) == {{}} \cup {{k} : k \in DOMAIN os}
mFit(x, os, df) == <<df, os>>
mRes(x, f, o) == o
mScreens(x, rs) == {{}, DOMAIN rs} \cup {{k} : k \in DOMAIN rs}
M == INSTANCE ObCold WITH SegMin <- 2, ScreenMin <- 4, Mid <- 4, Full <- 5, YearQ <- 16, Sids <- mSids, Dates <- mDates,
       Rejected <- LAMBDA x : FALSE, ClearCount <- LAMBDA x : 5, Usable <- mUsable, Fallback <- mNone, Conse <- LAMBDA x : ConseN,
       Breaks <- LAMBDA x : x, Masks <- mMasks, Fit <- mFit, Res <- mRes, Screens <- mScreens
Spec == M!Spec
D(o) == mDates(sid)[o]
Recs == [k \in DOMAIN segs |-> <<segs[k].ts, segs[k].te, segs[k].tb, segs[k].prob, segs[k].num, segs[k].cat>>]
Asked == {sid[k] : k \in DOMAIN sid}
Near(d) == {o \in 1..NObs : \A p \in 1..NObs : M!Abs(D(o) - d) <= M!Abs(D(p) - d)}

WellFormed == phase = "done" => ShapeFlags(Recs, mDates(sid)) = {}
(* every break is the observation nearest to a date that was asked for; at least a year lies between two that are kept *)
OnlyAsked == \A k \in DOMAIN segs : segs[k].tb # 0 => \E d \in Asked : d > 0 /\ \E o \in Near(d) : D(o) = segs[k].tb
LastOpen == phase = "done" /\ segs # <<>> => LET z == segs[Len(segs)] IN z.tb = 0 /\ z.prob = 0 /\ z.mag = <<>>
OthersClosed == phase = "done" => \A k \in 1..(Len(segs) - 1) : segs[k].prob = 100 /\ segs[k].tb > segs[k].te
Consecutive == \A k \in 2..Len(segs) : segs[k].ts >= segs[k-1].te
Models == \A k \in DOMAIN segs : LET os == segs[k].fit[2] IN
  /\ Len(os) = segs[k].num /\ segs[k].num >= 2 /\ D(os[1]) = segs[k].ts /\ D(os[Len(os)]) = segs[k].te /\ segs[k].cat = segs[k].fit[1]
  /\ \A j \in DOMAIN segs[k].mag : D(segs[k].mag[j]) >= segs[k].tb
(* the order of the given dates and repeats do not matter *)
Terminates == <>(phase = "done")
=============================================================================
