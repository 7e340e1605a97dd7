-------------------------------- MODULE Sccd --------------------------------
(* Stochastic (near-real-time) change detection of one pixel: one call of sccd_detect or sccd_update
   (src/cxx/s_ccd.c).  A pixel's state between calls is its pack: mode, records so far, state-space model
   with the last observations (monitoring) or observations waiting for a model (queue).  A call works on
   the pack's stored observations followed by the new ones, numbered 1..n.  Numeric decisions are constant
   operators answering with the set of admissible answers (see Cold.tla).                                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Void == 0          \* nothing yet
Monitor == 1       \* has a model; 11: its predictability is not confirmed yet
Queue == 2         \* waiting for a model; 12: as above
MonitorSnow == 3
QueueSnow == 4
Detected == 5      \* a change was just confirmed: waiting, but the model that saw it is kept

CONSTANTS
  MinObs,        \* observations needed for a model (18)
  StartMin,      \* observations before the first model that make a record of their own (6)
  SnowMin,       \* observations needed for a snow model (18)
  TailMax,       \* observations a pack keeps with a model (8)
  QueueMax,      \* observations a pack keeps without one (240)
  YearQ,         \* four times a year in days (1461)
  Delay,         \* days a fresh change stays marked (15)
  PinMin,        \* observations in a row off the prediction that make a pinpoint anomaly (3)
  Sids

CONSTANTS        \* a call
  Dates(_),      \* dates of all observations, stored ones first
  Rejected(_),
  ModeIn(_),     \* mode of the given pack (Void: first call)
  IsSnow(_),     \* a first call on a mostly snowy series, or a snow pack
  Stored(_),     \* how many observations come from the pack
  RecsIn(_),     \* how many records it has
  Conse(_),
  LoadTs(_), LoadNum(_), LoadModel(_),   \* its model: first date, observations, state
  LoadTail(_),   \* date of the first observation kept with it
  Pinpoint(_)    \* pinpoint anomalies wanted

CONSTANTS        \* numeric oracle
  Masks(_, _, _),     \* sid, observations, years: admissible sets of outliers
  Fit4(_, _),         \* sid, observations: harmonic model of four coefficients
  Stable(_, _),       \* sid, model
  Off(_, _, _),       \* sid, model, observation: deviation
  Confirm(_, _),      \* sid, deviations: change confirmed?  (looking back)
  Extreme(_),         \* deviation: isolated extreme?  (looking back)
  KInit(_, _, _),     \* sid, observations, the one after them: state-space model
  KSnow(_, _),        \* sid, observations: the same for a snow pixel
  KStep(_, _, _, _),  \* sid, state, observation, next one: filter
  KSkip(_, _, _, _),  \* sid, state, observation, next one: the observation is treated as missing
  KOff(_, _, _),      \* sid, state, observation: deviation from the prediction
  KConfirm(_, _),     \* sid, deviations: change confirmed?
  KExtreme(_),
  Gate(_, _),         \* sid, deviation: beyond the gate?
  Quiet(_, _),        \* sid, deviation: below the predictability threshold?
  Stronger(_, _, _)   \* sid, deviations, deviations: the first ones are the stronger anomaly?

VARIABLES
  sid, obs, i, s, dense, prev,
  trained, phase, b, fit, R,
  km, ts, num,      \* state-space model: state, first date, observations
  saved,            \* model to hand out
  changed,          \* a change was confirmed in this call
  segs,             \* records made by this call
  pins,             \* pinpoint anomalies
  mode,             \* mode of the pack handed out
  queue,            \* observations handed out in the queue
  err

vars == <<sid, obs, i, s, dense, prev, trained, phase, b, fit, R, km, ts, num, saved, changed, segs, pins, mode, queue, err>>

-----------------------------------------------------------------------------
D(o)  == Dates(sid)[o]
DP(p) == D(obs[p])
C     == Conse(sid)
N     == Len(obs)
All   == Len(Dates(sid))
Years(d) == (4 * d + 1460) \div 1461
Least(a, c) == IF a < c THEN a ELSE c
Most(a, c)  == IF a > c THEN a ELSE c
Drop(q, P) == FoldLeft(LAMBDA acc, k : IF k \in P THEN acc ELSE Append(acc, q[k]), <<>>, [k \in 1..Len(q) |-> k])
DropOne(q, p) == SubSeq(q, 1, p - 1) \o SubSeq(q, p + 1, Len(q))
LastN(q, n) == SubSeq(q, Most(1, Len(q) - n + 1), Len(q))
First == RecsIn(sid) + Len(segs) = 0      \* no record yet

NoModel == [kind |-> "none", ts |-> 0, num |-> 0, k |-> -1, tail |-> <<>>, run |-> <<>>]
Model(kind, run, tail) == [kind |-> kind, ts |-> ts, num |-> num, k |-> km, tail |-> tail, run |-> run]
Seg(kind, a, tb, n, f, mag) == [kind |-> kind, ts |-> a, tb |-> tb, num |-> n, fit |-> f, mag |-> mag]

Init ==
  /\ sid \in Sids
  /\ obs = <<>> /\ i = 1 /\ s = 1 /\ dense = 1 /\ prev = 1
  /\ trained = FALSE /\ phase = "start" /\ b = 0 /\ fit = -1 /\ R = <<>>
  /\ km = -1 /\ ts = 0 /\ num = 0 /\ saved = NoModel /\ changed = FALSE
  /\ segs = <<>> /\ pins = <<>> /\ mode = ModeIn(sid) /\ queue = <<>> /\ err = FALSE

Reject ==
  /\ phase = "start" /\ Rejected(sid)
  /\ err' = TRUE /\ phase' = "done"
  /\ UNCHANGED <<sid, obs, i, s, dense, prev, trained, b, fit, R, km, ts, num, saved, changed, segs, pins, mode, queue>>

(* nothing new: the pack stays as it is *)
Nothing ==
  /\ phase = "start" /\ ~Rejected(sid) /\ ~IsSnow(sid) /\ All = Stored(sid)
  /\ phase' = "done"
  /\ queue' = IF mode \in {Queue, 10 + Queue, Detected} THEN [k \in 1..All |-> k] ELSE <<>>
  /\ saved' = IF mode \in {Monitor, 10 + Monitor, Detected} THEN [NoModel EXCEPT !.kind = "same"] ELSE NoModel
  /\ UNCHANGED <<sid, obs, i, s, dense, prev, trained, b, fit, R, km, ts, num, changed, segs, pins, mode, err>>

(* --- permanent snow: one model, no change detection --- *)
SnowWait ==
  /\ phase = "start" /\ ~Rejected(sid) /\ IsSnow(sid) /\ mode # MonitorSnow /\ All < SnowMin
  /\ mode' = QueueSnow /\ queue' = [k \in 1..All |-> k] /\ phase' = "done"
  /\ UNCHANGED <<sid, obs, i, s, dense, prev, trained, b, fit, R, km, ts, num, saved, changed, segs, pins, err>>

SnowStart ==
  /\ phase = "start" /\ ~Rejected(sid) /\ IsSnow(sid) /\ mode # MonitorSnow /\ All >= SnowMin
  /\ mode' = MonitorSnow /\ phase' = "done"
  /\ LET os == [k \in 1..All |-> k] IN
     saved' = [kind |-> "snow", ts |-> D(1), num |-> All, k |-> KSnow(sid, os), tail |-> LastN(os, TailMax), run |-> <<>>]
  /\ UNCHANGED <<sid, obs, i, s, dense, prev, trained, b, fit, R, km, ts, num, changed, segs, pins, queue, err>>

SnowGoOn ==    \* all but the last TailMax observations are filtered
  /\ phase = "start" /\ ~Rejected(sid) /\ mode = MonitorSnow
  /\ phase' = "done"
  /\ LET os == [k \in 1..All |-> k] IN
     saved' = [kind |-> "snow", ts |-> LoadTs(sid), num |-> LoadNum(sid) + All - TailMax,
               k |-> FoldLeft(LAMBDA acc, p : KStep(sid, acc, p, p + 1), LoadModel(sid), [p \in 1..(All - TailMax) |-> p]),
               tail |-> LastN(os, TailMax), run |-> <<>>]
  /\ UNCHANGED <<sid, obs, i, s, dense, prev, trained, b, fit, R, km, ts, num, changed, segs, pins, mode, queue, err>>

(* --- standard pixels --- *)
Begin ==
  /\ phase = "start" /\ ~Rejected(sid) /\ ~IsSnow(sid) /\ All > Stored(sid)
  /\ obs' = [k \in 1..All |-> k] /\ phase' = "loop"
  /\ IF mode \in {Monitor, 10 + Monitor}
     THEN trained' = TRUE /\ km' = LoadModel(sid) /\ ts' = LoadTs(sid) /\ num' = LoadNum(sid)
     ELSE UNCHANGED <<trained, km, ts, num>>
  /\ UNCHANGED <<sid, i, s, dense, prev, b, fit, R, saved, changed, segs, pins, mode, queue, err>>

Looping == phase = "loop" /\ i + C <= N
Wide    == i - s + 1 >= MinObs /\ 4 * (DP(i) - DP(s)) >= YearQ
MaxGap  == LET g == {DP(p + 1) - DP(p) : p \in s..(i-1)} IN CHOOSE m \in g : \A h \in g : h <= m
Gapped  == 4 * MaxGap > YearQ

Widen ==
  /\ Looping /\ ~trained /\ ~Wide
  /\ i' = i + 1
  /\ UNCHANGED <<sid, obs, s, dense, prev, trained, phase, b, fit, R, km, ts, num, saved, changed, segs, pins, mode, queue, err>>

GapSkip ==
  /\ Looping /\ ~trained /\ Wide /\ Gapped
  /\ i' = i + 1 /\ s' = s + 1 /\ dense' = dense + 1
  /\ UNCHANGED <<sid, obs, prev, trained, phase, b, fit, R, km, ts, num, saved, changed, segs, pins, mode, queue, err>>

Screen == SubSeq(obs, s, Least(i + C - 1, N))
InitWindow(M) ==
  LET out == {s + m - 1 : m \in {q \in M : s + q - 1 <= i}}
      kept == (i - s + 1) - Cardinality(out)
      nobs == Drop(obs, out)
      ni == s + kept - 1
  IN  IF kept < MinObs THEN [what |-> "few"]
      ELSE IF 4 * (D(nobs[ni]) - D(nobs[s])) < YearQ THEN [what |-> "short"]
      ELSE [what |-> "try", obs |-> nobs, i |-> ni, f |-> Fit4(sid, SubSeq(nobs, s, ni))]

Initialise ==
  /\ Looping /\ ~trained /\ Wide /\ ~Gapped
  /\ \E M \in Masks(sid, Screen, Years(D(Screen[Len(Screen)]) - D(Screen[1]))) :
       LET w == InitWindow(M) IN
       IF w.what # "try"
       THEN /\ i' = i + 1
            /\ UNCHANGED <<sid, obs, s, dense, prev, trained, phase, b, fit, R, km, ts, num, saved, changed, segs, pins, mode, queue, err>>
       ELSE \E ok \in Stable(sid, w.f) :
            IF ~ok
            THEN /\ obs' = w.obs /\ s' = s + 1 /\ i' = w.i + 1
                 /\ UNCHANGED <<sid, dense, prev, trained, phase, b, fit, R, km, ts, num, saved, changed, segs, pins, mode, queue, err>>
            ELSE /\ obs' = w.obs /\ i' = w.i /\ fit' = w.f
                 /\ prev' = IF First THEN dense ELSE prev
                 /\ b' = s - 1 /\ phase' = "back" /\ R' = <<>>
                 /\ UNCHANGED <<sid, s, dense, trained, km, ts, num, saved, changed, segs, pins, mode, queue, err>>

Extend ==
  /\ phase = "back" /\ b >= prev
  /\ LET k == Least(b - prev + 1, C)
         rs == [j \in 1..k |-> Off(sid, fit, obs[b - j + 1])]
     IN \E c \in Confirm(sid, rs) :
        IF c THEN b' = prev - 1 /\ UNCHANGED <<obs, i, s>>
        ELSE \E x \in Extreme(rs[1]) :
             /\ obs' = IF x THEN DropOne(obs, b) ELSE obs
             /\ i' = IF x THEN i - 1 ELSE i
             /\ s' = b /\ b' = b - 1
  /\ UNCHANGED <<sid, dense, prev, trained, phase, fit, R, km, ts, num, saved, changed, segs, pins, mode, queue, err>>

(* the model stands: a record for what came before the first one, and its state-space form *)
Settle ==
  /\ phase = "back" /\ b < prev
  /\ LET early == First /\ s - dense >= StartMin
         rs == [j \in 1..Least(C, s - dense) |-> Off(sid, fit, obs[s - j])]
     IN /\ segs' = IF early THEN Append(segs, Seg("start", DP(dense), DP(s), s - prev, Fit4(sid, SubSeq(obs, dense, s)), rs)) ELSE segs
        /\ prev' = IF early THEN s ELSE prev
  /\ km' = KInit(sid, SubSeq(obs, s, i), obs[i + 1])
  /\ ts' = DP(s) /\ num' = i - s + 1 /\ trained' = TRUE /\ i' = i + 1 /\ phase' = "loop"
  /\ UNCHANGED <<sid, obs, s, dense, b, fit, R, saved, changed, mode, pins, queue, err>>

(* --- monitoring --- *)
Window == [j \in 1..C |-> KOff(sid, km, obs[i + j - 1])]

\* the year (of 365.25 days, from the first of January 1982) an anomaly is filed under
YearOf(d) == (4 * (d - 723546)) \div 1461
Pin(W) == [tb |-> DP(i), k |-> km, run |-> W, tail |-> SubSeq(obs, i, i + C - 1)]
PinChoices(W) ==      \* admissible lists of pinpoint anomalies after W
  IF ~Pinpoint(sid) \/ C < PinMin THEN {pins}
  ELSE IF \E j \in 1..PinMin : Gate(sid, W[j]) = {FALSE} THEN {pins}
  ELSE LET sure == \A j \in 1..PinMin : Gate(sid, W[j]) = {TRUE}
           same == pins # <<>> /\ YearOf(pins[Len(pins)].tb) = YearOf(DP(i))
           new == IF same
                  THEN {IF x THEN [pins EXCEPT ![Len(pins)] = Pin(W)] ELSE pins : x \in Stronger(sid, W, pins[Len(pins)].run)}
                  ELSE {Append(pins, Pin(W))}
       IN new \cup (IF sure THEN {} ELSE {pins})

Monitoring ==
  /\ Looping /\ trained
  /\ LET W == Window IN
     /\ \E p \in PinChoices(W) : pins' = p
     /\ \E chg \in KConfirm(sid, W) :
        IF chg
        THEN /\ segs' = Append(segs, Seg("break", ts, DP(i), num, km, W))
             /\ saved' = Model("break", W, SubSeq(obs, i, i + C - 1))
             /\ s' = i /\ prev' = i /\ i' = i + 1 /\ trained' = FALSE
             /\ changed' = (mode # Void)
             /\ UNCHANGED <<obs, km, num>>
        ELSE \E x \in KExtreme(W[1]) :
             IF x THEN /\ km' = KSkip(sid, km, obs[i], obs[i + 1]) /\ obs' = DropOne(obs, i)
                       /\ UNCHANGED <<i, s, prev, num, trained, saved, changed, segs>>
             ELSE /\ km' = KStep(sid, km, obs[i], obs[i + 1]) /\ num' = num + 1 /\ i' = i + 1
                  /\ UNCHANGED <<obs, s, prev, trained, saved, changed, segs>>
  /\ UNCHANGED <<sid, dense, phase, b, fit, R, ts, mode, queue, err>>

(* --- end of the call: mode, model and queue to hand out --- *)
Confirmed == mode \in {Monitor, Queue, Detected}     \* predictability is settled
NewMode ==
  IF mode = Void THEN IF trained THEN Monitor ELSE 10 + Queue
  ELSE IF changed THEN IF Confirmed THEN Detected ELSE 10 + Queue
  ELSE IF mode \in {Queue, 10 + Queue} THEN IF trained THEN Monitor ELSE mode
  ELSE IF mode = Detected THEN IF DP(N - C + 1) - LoadTail(sid) < Delay THEN Detected ELSE 10 + Queue
  ELSE mode

Trail == [j \in 1..C |-> KOff(sid, km, obs[N - j + 1])]      \* latest first
QuietCounts(T) ==    \* admissible numbers of quiet observations
  LET yes == Cardinality({j \in DOMAIN T : Quiet(sid, T[j]) = {TRUE}})
      maybe == Cardinality({j \in DOMAIN T : Quiet(sid, T[j]) = BOOLEAN})
  IN yes..(yes + maybe)
Runs(T) ==           \* admissible lengths of the run of observations beyond the gate at the end
  {r \in 0..C : (\A j \in 1..r : TRUE \in Gate(sid, T[j])) /\ (r < C => FALSE \in Gate(sid, T[r + 1]))}

Finish ==
  /\ phase = "loop" /\ i + C > N
  /\ phase' = "done"
  /\ LET m == NewMode
         stay == mode = Detected /\ m = Detected /\ ~changed
         from == IF stay THEN 1 ELSE prev
     IN /\ IF m \in {Monitor, 10 + Monitor}
           THEN LET T == Trail IN
                \E r \in Runs(T) :
                  /\ saved' = Model("end", SubSeq(T, 1, r), SubSeq(obs, N - C + 1, N))
                  /\ IF m = 10 + Monitor /\ C > 1 THEN \E q \in QuietCounts(T) : mode' = IF 2 * q > C THEN Monitor ELSE m
                     ELSE mode' = m
           ELSE /\ mode' = m
                /\ saved' = IF m = Detected /\ ~changed THEN [NoModel EXCEPT !.kind = "same"] ELSE IF m = Detected THEN saved ELSE NoModel
        /\ queue' = IF m \in {Queue, 10 + Queue, Detected} THEN LastN(SubSeq(obs, from, N), QueueMax) ELSE <<>>
  /\ UNCHANGED <<sid, obs, i, s, dense, prev, trained, b, fit, R, km, ts, num, changed, segs, pins, err>>

Next == Reject \/ Nothing \/ SnowWait \/ SnowStart \/ SnowGoOn \/ Begin \/ Widen \/ GapSkip \/ Initialise
        \/ Extend \/ Settle \/ Monitoring \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
=============================================================================
