------------------------------ MODULE Records ------------------------------
(* What the records of one pixel must look like, whatever the machine did (properties C01, C11).
   A record is <<t_start, t_end, t_break, prob, num_obs, category>>; `dates` is the sequence of dates of the
   observations that may take part.                                                                       *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL Set(q) == {q[k] : k \in DOMAIN q}
LOCAL CountIn(q, lo, hi) == Cardinality({k \in DOMAIN q : q[k] >= lo /\ q[k] <= hi})
LOCAL Flag(cond, k, name) == IF cond THEN {} ELSE {<<k, "wf", name>>}

(* disagreements of the records with the general shape *)
ShapeFlags(recs, dates) ==
  LET n == Len(recs) ds == Set(dates) IN
  UNION { LET r == recs[k] IN
      Flag(r[1] <= r[2], k, "startAfterEnd")
      \cup Flag(r[1] \in ds /\ r[2] \in ds /\ (r[3] = 0 \/ r[3] \in ds), k, "dateNotUsable")
      \cup Flag(k = 1 \/ r[1] >= recs[k-1][3], k, "startsBeforeBreak")
      \cup Flag(k = n \/ (r[4] = 100 /\ r[3] > r[2]), k, "unconfirmedInside")
      \cup Flag(r[4] >= 0 /\ r[4] <= 100 /\ ((r[4] = 0) <=> (r[3] = 0)), k, "probWithoutBreak")
      \cup Flag(r[3] = 0 \/ r[3] > r[2], k, "breakBeforeEnd")
      \cup Flag(r[5] >= 1 /\ r[5] <= CountIn(dates, r[1], r[2]), k, "count")
    : k \in 1..n }
=============================================================================
