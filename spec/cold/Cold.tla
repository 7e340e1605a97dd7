-------------------------------- MODULE Cold --------------------------------
(* The COLD segmentation machine (src/cxx/cold.c, stand_procedure) over the usable observations of one
   pixel.  Numeric decisions (is this fit stable?  do these deviations confirm a change? ...) are constant
   operators: the exhaustive configuration (ColdMC) leaves them nondeterministic, the conformance
   configuration (ColdConf) binds them to a numeric oracle, which answers with the *set* of admissible
   answers.  Observations are numbered 1..n in date order; the machine deletes outliers from `obs`.       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS
  MinClear,      \* observations needed to initialise (12)
  StartMin,      \* observations needed for a short start/end model (6)
  Mid, Full,     \* observation numbers from which 6 / 8 coefficients are used (18, 24)
  YearQ,         \* four times the minimum initialisation period in days (1461 = 4 x 365.25)
  CmFill,        \* fill of the change-magnitude series
  Sids           \* series explored

CONSTANTS        \* inputs of a series (observations are numbered in input order)
  Dates(_),      \* sequence of dates of all its observations
  Rejected(_),   \* the input is not a valid series (unknown quality code, dates out of order)
  ClearCount(_), \* number of observations flagged clear or water
  Usable(_),     \* sequence of observations that take part: clear or water, in range, first of their date
  Fallback(_),   \* [cat, obs, fit] of a series with too few clear observations; obs empty: no record
  Conse(_),      \* consecutive observations to confirm a change
  Gap(_),        \* largest gap (days) allowed inside an initialisation window
  CmOn(_), CmStart(_), CmInterval(_)

CONSTANTS        \* numeric oracle
  Masks(_, _, _),      \* sid, observations, years: admissible sets of outlier positions
  Fit(_, _, _),        \* sid, observations, coefficients: fitted model
  Stable(_, _),        \* sid, model: admissible answers to "is the initial model stable?"
  Res(_, _, _),        \* sid, model, observation: deviation normalised by noise / model error
  ResNear(_, _, _),    \* the same, normalised by the error of the nearest days of the year
  Confirm(_, _),       \* sid, deviations: all above threshold and coherent?
  TailAbove(_, _),     \* sid, deviations: first above threshold and all coherent?
  Extreme(_),          \* deviation: isolated extreme?
  CM(_, _)             \* sid, deviations: change magnitude interval <<lo, hi>>

VARIABLES
  sid,     \* the series (constant)
  obs,     \* remaining observations
  i, s,    \* window: last and first position
  dense,   \* first position after the last over-long gap
  trained, \* a stable model exists
  phase,   \* "start" | "scan" | "back" | "mon" | "end" | "done"
  b,       \* backward position
  brk,     \* where the backward extension must stop
  R,       \* deviations of the last backward test
  fit, cur,  \* model and open record
  skip, preEnd, first,   \* update schedule of the model
  W,       \* deviations of the next Conse observations
  err,     \* the input was rejected
  segs,    \* emitted records
  cm       \* change-magnitude cells: cell -> set of <<lo, hi, date>>

vars == <<sid, obs, i, s, dense, trained, phase, b, brk, R, fit, cur, skip, preEnd, first, W, err, segs, cm>>

-----------------------------------------------------------------------------
D(o)      == Dates(sid)[o]                  \* date of an observation
DP(p)     == D(obs[p])                      \* date of a position
C         == Conse(sid)
N         == Len(obs)
Years(d)  == (4 * d + 1460) \div 1461       \* years begun in d days
Df(n)     == IF n < Mid THEN 4 ELSE IF n < Full THEN 6 ELSE 8
Drop(q, P) == FoldLeft(LAMBDA acc, k : IF k \in P THEN acc ELSE Append(acc, q[k]), <<>>, [k \in 1..Len(q) |-> k])
                                            \* q without positions P
DropOne(q, p) == SubSeq(q, 1, p - 1) \o SubSeq(q, p + 1, Len(q))
Least(a, c) == IF a < c THEN a ELSE c
NoRec     == [ts |-> 0, te |-> 0, num |-> 0, cat |-> 0]
LastBreak == segs[Len(segs)].tb
FirstAtOrAfter(d) == CHOOSE p \in 1..N : DP(p) >= d /\ \A r \in 1..(p-1) : DP(r) < d

Seg(kind, ts, te, tb, prob, num, cat, f, mag, sign) ==
  [kind |-> kind, ts |-> ts, te |-> te, tb |-> tb, prob |-> prob, num |-> num, cat |-> cat,
   fit |-> f, mag |-> mag, sign |-> sign]

(* change-magnitude cell of a date; a later write of an equal value never replaces an earlier one *)
CellOf(d) == (d - CmStart(sid)) \div CmInterval(sid)
CMPut(d, rs) ==
  IF ~CmOn(sid) THEN cm
  ELSE LET v == CM(sid, rs)
           k == CellOf(d)
           old == IF k \in DOMAIN cm THEN cm[k] ELSE {}
           lo == IF old = {} THEN v[1] ELSE LET m == CHOOSE e \in old : \A g \in old : g[1] <= e[1] IN IF m[1] > v[1] THEN m[1] ELSE v[1]
           all == old \cup {<<v[1], v[2], d>>}
       IN [c \in DOMAIN cm \cup {k} |-> IF c = k THEN {e \in all : e[2] >= lo} ELSE cm[c]]

-----------------------------------------------------------------------------
Init ==
  /\ sid \in Sids
  /\ obs = <<>>
  /\ i = MinClear /\ s = 1 /\ dense = 1 /\ trained = FALSE
  /\ phase = "start" /\ b = 0 /\ brk = 0 /\ R = <<>> /\ fit = -1 /\ cur = NoRec
  /\ skip = 0 /\ preEnd = 0 /\ first = FALSE /\ W = <<>> /\ err = FALSE /\ segs = <<>>
  /\ cm = << >>

(* --- which treatment the series gets --- *)
Reject ==
  /\ phase = "start" /\ Rejected(sid)
  /\ err' = TRUE /\ phase' = "done"
  /\ UNCHANGED <<sid, obs, i, s, dense, trained, b, brk, R, fit, cur, skip, preEnd, first, W, segs, cm>>

Standard ==
  /\ phase = "start" /\ ~Rejected(sid) /\ ClearCount(sid) >= Full
  /\ obs' = Usable(sid) /\ phase' = "scan"
  /\ UNCHANGED <<sid, i, s, dense, trained, b, brk, R, fit, cur, skip, preEnd, first, W, err, segs, cm>>

TooFewClear ==
  /\ phase = "start" /\ ~Rejected(sid) /\ ClearCount(sid) < Full
  /\ LET f == Fallback(sid) IN
     segs' = IF f.obs = <<>> THEN <<>>
             ELSE <<Seg("fallback", D(f.obs[1]), D(f.obs[Len(f.obs)]), 0, 0, Len(f.obs), f.cat, f.fit, <<>>, 1)>>
  /\ phase' = "done"
  /\ UNCHANGED <<sid, obs, i, s, dense, trained, b, brk, R, fit, cur, skip, preEnd, first, W, err, cm>>

Looping == phase = "scan" /\ i <= N - C
Wide    == i - s + 1 >= MinClear /\ 4 * (DP(i) - DP(s)) >= YearQ
MaxGap  == LET g == {DP(p + 1) - DP(p) : p \in s..(i-1)} IN CHOOSE m \in g : \A h \in g : h <= m

(* window still too small or too short *)
Widen ==
  /\ Looping /\ ~Wide
  /\ i' = i + 1
  /\ UNCHANGED <<sid, obs, s, dense, trained, phase, b, brk, R, fit, cur, skip, preEnd, first, W, err, segs, cm>>

Monitoring ==
  /\ Looping /\ Wide /\ trained
  /\ phase' = "mon"
  /\ UNCHANGED <<sid, obs, i, s, dense, trained, b, brk, R, fit, cur, skip, preEnd, first, W, err, segs, cm>>

(* --- initialisation --- *)
GapSkip ==
  /\ Looping /\ Wide /\ ~trained /\ MaxGap > Gap(sid)
  /\ i' = i + 1 /\ s' = s + 1 /\ dense' = s + 1
  /\ UNCHANGED <<sid, obs, trained, phase, b, brk, R, fit, cur, skip, preEnd, first, W, err, segs, cm>>

InitWindow(M) ==  \* outliers M (positions of s..i+C, relative) removed from s..i
  LET win == SubSeq(obs, s, i + C)
      out == {s + m - 1 : m \in {q \in M : s + q - 1 <= i}}
      kept == (i - s + 1) - Cardinality(out)
      nobs == Drop(obs, out)
      ni == s + kept - 1
  IN  IF kept < MinClear THEN [what |-> "few"]
      ELSE IF 4 * (D(nobs[ni]) - D(nobs[s])) < YearQ THEN [what |-> "short"]
      ELSE [what |-> "try", obs |-> nobs, i |-> ni, f |-> Fit(sid, SubSeq(nobs, s, ni), 4)]

Initialise ==
  /\ Looping /\ Wide /\ ~trained /\ MaxGap <= Gap(sid)
  /\ \E M \in Masks(sid, SubSeq(obs, s, i + C), Years(DP(i + C) - DP(s))) :
       LET w == InitWindow(M) IN
       IF w.what # "try"
       THEN /\ i' = i + 1
            /\ UNCHANGED <<sid, obs, s, dense, trained, phase, b, brk, R, fit, cur, skip, preEnd, first, W, err, segs, cm>>
       ELSE \E ok \in Stable(sid, w.f) :
            IF ~ok
            THEN /\ obs' = w.obs /\ s' = s + 1 /\ i' = w.i + 1
                 /\ UNCHANGED <<sid, dense, trained, phase, b, brk, R, fit, cur, skip, preEnd, first, W, err, segs, cm>>
            ELSE /\ obs' = w.obs /\ i' = w.i /\ trained' = TRUE /\ first' = TRUE
                 /\ fit' = w.f
                 /\ brk' = IF segs = <<>> THEN dense
                           ELSE CHOOSE p \in 1..Len(w.obs) : D(w.obs[p]) >= LastBreak /\ \A r \in 1..(p-1) : D(w.obs[r]) < LastBreak
                 /\ b' = s - 1 /\ phase' = "back"
                 /\ R' = <<>>
                 /\ UNCHANGED <<sid, s, dense, cur, skip, preEnd, W, err, segs, cm>>

(* --- backward extension of a new stable model, one observation at a time --- *)
Extend ==
  /\ phase = "back" /\ b >= brk
  /\ LET k  == Least(b - brk + 1, C)
         rs == [j \in 1..k |-> Res(sid, fit, obs[b - j + 1])]
         cm2 == IF k >= C THEN CMPut(DP(b + 1), rs) ELSE cm
     IN /\ R' = rs /\ cm' = cm2
        /\ \E c \in Confirm(sid, rs) :
             IF c THEN /\ b' = brk - 1      \* a change: stop extending
                       /\ UNCHANGED <<obs, i, s>>
             ELSE \E x \in Extreme(rs[1]) :
                  /\ obs' = IF x THEN DropOne(obs, b) ELSE obs
                  /\ i' = IF x THEN i - 1 ELSE i
                  /\ s' = b /\ b' = b - 1
  /\ UNCHANGED <<sid, dense, trained, phase, brk, fit, cur, skip, preEnd, first, W, err, segs>>

(* the observations before the first stable model get a short model of their own *)
BackDone ==
  /\ phase = "back" /\ b < brk
  /\ phase' = "mon"
  /\ segs' = IF segs = <<>> /\ s - dense >= StartMin
             THEN Append(segs, Seg("start", DP(dense), DP(s - 1), DP(s), 100, s - dense, 14,
                                   Fit(sid, SubSeq(obs, dense, s - 1), 4), R, -1))
             ELSE segs
  /\ UNCHANGED <<sid, obs, i, s, dense, trained, b, brk, R, fit, cur, skip, preEnd, first, W, err, cm>>

(* --- monitoring: refit when due, test the next C observations --- *)
Span == i - s + 1
Refit(df, w0) ==
  LET f == Fit(sid, SubSeq(obs, s, i), df)
  IN  [f |-> f, c |-> [ts |-> DP(s), te |-> DP(i), num |-> Span, cat |-> df]]

Test(f, c, w, sk, pe) ==   \* decide on the deviations w of the next C observations
  /\ fit' = f /\ cm' = CMPut(DP(i + 1), w) /\ preEnd' = pe
  /\ \E chg \in Confirm(sid, w) :
       IF chg
       THEN /\ segs' = Append(segs, Seg("break", c.ts, c.te, DP(i + 1), 100, c.num, c.cat, f, w, 1))
            /\ s' = i + 1 /\ trained' = FALSE /\ skip' = 0 /\ i' = i + 1
            /\ cur' = NoRec /\ W' = <<>> /\ UNCHANGED obs
       ELSE \E x \in Extreme(w[1]) :
            /\ obs' = IF x THEN DropOne(obs, i + 1) ELSE obs
            /\ i' = IF x THEN i ELSE i + 1
            /\ cur' = c /\ W' = w /\ skip' = sk
            /\ UNCHANGED <<s, trained, segs>>
  /\ phase' = "scan" /\ first' = FALSE
  /\ UNCHANGED <<sid, dense, b, brk, R, err>>

Grow ==   \* young model: refit at every observation
  /\ phase = "mon" /\ (first \/ Span <= Full)
  /\ LET sk == IF skip = 0 THEN Span ELSE skip
         u == Refit(Df(Span), W)
     IN  Test(u.f, u.c, [m \in 1..C |-> Res(sid, u.f, obs[i + m])], sk, i)

Slide ==  \* mature model: refit when a third more observations have come in
  /\ phase = "mon" /\ ~(first \/ Span <= Full)
  /\ LET sk == IF skip = 0 THEN Span ELSE skip
         due == i - preEnd >= 1 /\ i - preEnd > (sk * 3) \div 100
     IN  LET u == IF due THEN Refit(8, W) ELSE [f |-> fit, c |-> cur]
             c == [u.c EXCEPT !.te = DP(i), !.ts = cur.ts]
         IN  Test(u.f, c, Append(Tail(W), ResNear(sid, u.f, obs[i + C])), IF due THEN Span ELSE sk, IF due THEN i ELSE preEnd)

(* --- end of the series --- *)
Finish == phase = "scan" /\ i > N - C /\ phase' = "end"
          /\ UNCHANGED <<sid, obs, i, s, dense, trained, b, brk, R, fit, cur, skip, preEnd, first, W, err, segs, cm>>

(* last position of W up to which nothing is confirmed: largest m whose suffix fails the tail test, default C *)
CloseOpen ==
  /\ phase = "end" /\ trained
  /\ \E a \in [1..C -> BOOLEAN] :
       /\ \A m \in 1..C : a[m] \in TailAbove(sid, SubSeq(W, m, C))
       /\ LET bad == {m \in 1..C : ~a[m]}
              last == IF bad = {} THEN C ELSE CHOOSE m \in bad : \A r \in bad : r <= m
              brk2 == C > last
          IN segs' = Append(segs, Seg("open", cur.ts, DP(N - C + last), IF brk2 THEN DP(N - C + last + 1) ELSE 0,
                              ((C - last) * 100) \div C, cur.num, cur.cat, fit,
                              IF brk2 THEN SubSeq(W, last + 1, C) ELSE <<>>, 1))
  /\ phase' = "done"
  /\ UNCHANGED <<sid, obs, i, s, dense, trained, b, brk, R, fit, cur, skip, preEnd, first, W, err, cm>>

CloseShort ==
  /\ phase = "end" /\ ~trained
  /\ LET ss == IF segs = <<>> THEN 1 ELSE FirstAtOrAfter(LastBreak)
         n == N - ss + 1
     IN IF n < StartMin THEN UNCHANGED <<segs, obs>>
        ELSE \E M \in Masks(sid, SubSeq(obs, ss, N), Years(DP(N) - DP(ss))) :
             LET nobs == Drop(obs, {ss + m - 1 : m \in M})
                 k == Len(nobs) - ss + 1
             IN /\ obs' = nobs
                /\ segs' = IF k >= StartMin
                           THEN Append(segs, Seg("end", IF segs = <<>> THEN D(nobs[1]) ELSE LastBreak, D(nobs[Len(nobs)]), 0, 0, k, 24,
                                                 Fit(sid, SubSeq(nobs, ss, Len(nobs)), 4), <<>>, 1))
                           ELSE segs
  /\ phase' = "done"
  /\ UNCHANGED <<sid, i, s, dense, trained, b, brk, R, fit, cur, skip, preEnd, first, W, err, cm>>

Next == Reject \/ Standard \/ TooFewClear \/ Widen \/ Monitoring \/ GapSkip \/ Initialise \/ Extend \/ BackDone \/ Grow \/ Slide \/ Finish \/ CloseOpen \/ CloseShort
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
=============================================================================
