------------------------------- MODULE ObCold -------------------------------
(* Object-based reconstruction (src/cxx/cold.c, obcold_reconstruction_procedure): the series is split at
   prescribed break dates.  Numeric decisions are operators, as in Cold.tla.                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS
  SegMin,        \* observations a segment needs (6)
  ScreenMin,     \* observations from which a closed segment is screened for outliers (12)
  Mid, Full,     \* observation numbers from which 6 / 8 coefficients are used (18, 24)
  YearQ,         \* four times the least distance of two breaks in days (1461)
  Sids

CONSTANTS
  Dates(_), Rejected(_), ClearCount(_), Usable(_), Fallback(_), Conse(_),
  Breaks(_),     \* the prescribed break dates, as given
  Masks(_, _, _), Fit(_, _, _), Res(_, _, _),
  Screens(_, _)  \* sid, deviations: admissible sets of positions far off

VARIABLES
  sid, obs,
  todo,    \* break dates still to be handled
  last,    \* first position of the current segment
  phase,   \* "start" | "split" | "close" | "done"
  segs, err
vars == <<sid, obs, todo, last, phase, segs, err>>

D(o)  == Dates(sid)[o]
DP(p) == D(obs[p])
N     == Len(obs)
Df(n) == IF n < Mid THEN 4 ELSE IF n < Full THEN 6 ELSE 8
Abs(x) == IF x < 0 THEN -x ELSE x
Least(a, c) == IF a < c THEN a ELSE c
Drop(q, P) == FoldLeft(LAMBDA acc, k : IF k \in P THEN acc ELSE Append(acc, q[k]), <<>>, [k \in 1..Len(q) |-> k])
Years(d) == (4 * d + 1460) \div 1461

(* positive dates in order, each at least a year after the last one kept *)
Kept(q) == FoldLeft(LAMBDA acc, d : IF d > 0 /\ 4 * (d - (IF acc = <<>> THEN 0 ELSE acc[Len(acc)])) >= YearQ THEN Append(acc, d) ELSE acc,
                    <<>>, SortSeq(q, LAMBDA x, y : x < y))

(* the observation a break date falls on: the nearest one, the earlier of two *)
At(q, d) == FoldLeft(LAMBDA acc, p : IF Abs(D(q[p]) - d) < Abs(D(q[acc]) - d) THEN p ELSE acc, 1, [p \in 1..Len(q) |-> p])

Seg(kind, ts, te, tb, prob, num, cat, f, mag) ==
  [kind |-> kind, ts |-> ts, te |-> te, tb |-> tb, prob |-> prob, num |-> num, cat |-> cat, fit |-> f, mag |-> mag, sign |-> 1]

FallbackSeg == LET f == Fallback(sid) IN
  IF f.obs = <<>> THEN <<>>
  ELSE <<Seg("fallback", D(f.obs[1]), D(f.obs[Len(f.obs)]), 0, 0, Len(f.obs), f.cat, f.fit, <<>>)>>

-----------------------------------------------------------------------------
Init ==
  /\ sid \in Sids
  /\ obs = <<>> /\ todo = <<>> /\ last = 1 /\ phase = "start" /\ segs = <<>> /\ err = FALSE

Reject ==
  /\ phase = "start" /\ Rejected(sid)
  /\ err' = TRUE /\ phase' = "done" /\ UNCHANGED <<sid, obs, todo, last, segs>>
TooFewClear ==
  /\ phase = "start" /\ ~Rejected(sid) /\ ClearCount(sid) < Full
  /\ segs' = FallbackSeg /\ phase' = "done" /\ UNCHANGED <<sid, obs, todo, last, err>>
Begin ==
  /\ phase = "start" /\ ~Rejected(sid) /\ ClearCount(sid) >= Full
  /\ obs' = Usable(sid) /\ todo' = Kept(Breaks(sid)) /\ phase' = "split"
  /\ UNCHANGED <<sid, last, segs, err>>

Open == todo = <<>>                                \* the last segment
EndPos == IF Open THEN N + 1 ELSE At(obs, todo[1]) \* first position after the segment

TooShort ==   \* joins the next segment
  /\ phase = "split" /\ EndPos - last < SegMin
  /\ IF Open THEN phase' = "close" /\ UNCHANGED todo ELSE todo' = Tail(todo) /\ UNCHANGED phase
  /\ UNCHANGED <<sid, obs, last, segs, err>>

Emit(q) ==    \* observations q remain
  LET e == IF Open THEN Len(q) + 1 ELSE At(q, todo[1])
      n == e - last
      f == Fit(sid, SubSeq(q, last, e - 1), Df(n))
      k == Least(Conse(sid), Len(q) - e + 1)
  IN /\ obs' = q
     /\ segs' = Append(segs,
          IF Open THEN Seg("open", D(q[last]), D(q[e-1]), 0, 0, n, Df(n), f, <<>>)
          ELSE Seg("closed", D(q[last]), D(q[e-1]), D(q[e]), 100, n, Df(n), f, [j \in 1..k |-> Res(sid, f, q[e + j - 1])]))
     /\ IF Open THEN phase' = "close" /\ UNCHANGED <<last, todo>>
        ELSE last' = e /\ todo' = Tail(todo) /\ UNCHANGED phase
     /\ UNCHANGED <<sid, err>>

Plain ==      \* no screening of small or open segments
  /\ phase = "split" /\ EndPos - last >= SegMin
  /\ Open \/ EndPos - last < ScreenMin
  /\ Emit(obs)

Screened ==
  /\ phase = "split" /\ ~Open /\ EndPos - last >= ScreenMin
  /\ \E M \in Masks(sid, SubSeq(obs, last, EndPos - 1), Years(DP(EndPos - 1) - DP(last) + 1)) :
       LET q1 == Drop(obs, {last + m - 1 : m \in M})
           e1 == EndPos - Cardinality(M)
           n1 == e1 - last
           skip == todo' = Tail(todo) /\ UNCHANGED <<sid, obs, last, phase, segs, err>>
       IN IF n1 < SegMin THEN skip
          ELSE LET f == Fit(sid, SubSeq(q1, last, e1 - 1), Df(n1))
               IN \E X \in Screens(sid, [j \in 1..n1 |-> Res(sid, f, q1[last + j - 1])]) :
                    IF n1 - Cardinality(X) < SegMin THEN skip
                    ELSE Emit(Drop(q1, {last + x - 1 : x \in X}))

Close ==      \* a series always ends in an open record
  /\ phase = "close"
  /\ segs' = IF segs = <<>> THEN FallbackSeg
             ELSE [segs EXCEPT ![Len(segs)].tb = 0, ![Len(segs)].prob = 0, ![Len(segs)].mag = <<>>, ![Len(segs)].kind = "open"]
  /\ phase' = "done" /\ UNCHANGED <<sid, obs, todo, last, err>>

Next == Reject \/ TooFewClear \/ Begin \/ TooShort \/ Plain \/ Screened \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
=============================================================================
