------------------------------ MODULE Identify ------------------------------
(* Disturbance identification on an S-CCD pack (sccd_identify), and its conformance: every case of the input is
   a pack, thresholds and what the implementation answered.  The spectral change of a band is the median over the
   trailing run of what was observed less what the model predicts; the differences come as hundredths, with the
   slack their computation needs, so that the greening test has a set of admissible answers.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Cases == JsonDeserialize(IOEnv.VERIF_JSON)
VARIABLE k
Launch == 723742
NoData == 0

\* how many observations the model keeps: empty slots hold no values
Kept(c) == Cardinality({j \in 1..8 : \E b \in 1..6 : c.obs[b][j] # 0})
TrailFrom(c) == Kept(c) - c.run + 1
Asc(q) == SortSeq(q, LAMBDA a, b : a < b)
\* twice the median, in hundredths
Median2(q) == LET s == Asc(q) n == Len(s) IN IF n % 2 = 1 THEN 2 * s[(n + 1) \div 2] ELSE s[n \div 2] + s[(n \div 2) + 1]
Change2(c, b) == Median2([j \in 1..c.run |-> c.diff[b][TrailFrom(c) + j - 1]])
Slack == 4
Below(v, t) == IF v < t - Slack THEN {TRUE} ELSE IF v > t + Slack THEN {FALSE} ELSE BOOLEAN
All3(A, B, C) == {a /\ b /\ d : a \in A, b \in B, d \in C}
\* greener: red and swir change by less than minus the threshold, nir by more than it
Greening(c) == All3(Below(Change2(c, 3), -200 * c.t), Below(200 * c.t, Change2(c, 4)), Below(Change2(c, 5), -200 * c.t))

Eligible(c) == c.mode \notin {3, 4} /\ c.mode \div 10 # 1 /\ c.has
Strong(c) == c.run >= c.dist /\ c.cm > c.tcg /\ c.angle < c.tangle
Nothing(c) == [date |-> NoData, mode |-> c.mode]
Found(c) == [date |-> c.dates[TrailFrom(c)] + Launch, mode |-> IF c.transform /\ c.mode = 1 THEN 11 ELSE c.mode]
Answers(c) == IF Eligible(c) /\ Strong(c) THEN {IF g THEN Nothing(c) ELSE Found(c) : g \in Greening(c)} ELSE {Nothing(c)}

\* what holds of every answer
Sound(c) == \A a \in Answers(c) :
  /\ a.date # NoData => /\ c.has /\ c.mode \in {1, 5, 2} /\ c.run > 0
                        /\ a.date = c.dates[TrailFrom(c)] + Launch
                        /\ \A j \in TrailFrom(c)..(Kept(c) - 1) : c.dates[j] < c.dates[j + 1]
  /\ a.mode # c.mode => a.mode = 11 /\ c.mode = 1 /\ a.date # NoData /\ c.transform
Init == k = 1
Next == k <= Len(Cases) /\ k' = k + 1
Spec == Init /\ [][Next]_k
Conforms == k <= Len(Cases) =>
  LET c == Cases[k] IN Sound(c) /\ IF [date |-> c.out.date, mode |-> c.out.mode] \in Answers(c) /\ c.out.kept THEN TRUE ELSE PrintT(<<"MISMATCH", k>>)
=============================================================================
