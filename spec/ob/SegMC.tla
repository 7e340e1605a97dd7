------------------------------- MODULE SegMC -------------------------------
(* All small maps: the superpixels that growing from the peaks makes, whatever the order of equal peaks. *)
EXTENDS Seg, IOUtils, TLC
H == CHOOSE n \in 1..9 : ToString(n) = IOEnv.S_H
W == CHOOSE n \in 1..9 : ToString(n) = IOEnv.S_W
Vals == {None, 600000, 950000, 1500000, 2400000}
Days == IF IOEnv.S_DAYS = "2" THEN {100, 161} ELSE {100, 150, 161}
M == [h |-> H, w |-> W, ratio |-> 40, interval |-> 60, peak |-> 923636, prob |-> FALSE]
VARIABLES v, d, lab, n
Init == /\ v \in [Place(M) -> Vals] /\ d \in [Place(M) -> Days]
        /\ \A p \in Place(M) : v[p] = None => d[p] = 100
        /\ lab = [p \in Place(M) |-> 0] /\ n = 0
Next == \E s \in Highest(v, Open(v, M, lab)) :
          LET R == Region(v, d, M, lab, s) IN
          /\ n' = n + 1 /\ lab' = [p \in Place(M) |-> IF p \in R THEN n' ELSE lab[p]] /\ UNCHANGED <<v, d>>
Done == Open(v, M, lab) = {}
Alone(l) == Of(M, lab, l)
\* O01
Changed   == \A p \in Place(M) : lab[p] > 0 => v[p] # None
Connected == \A l \in 1..n : \A p \in Alone(l) : Reach(M, [q \in Place(M) |-> lab[q] = l], {p}, {p}) = Alone(l)
SamePeriod == \A l \in 1..n : \A p, q \in Alone(l) : Dist(d[p], d[q]) <= 2 * M.interval
Peaked    == \A l \in 1..n : \E s \in Alone(l) : v[s] > M.peak /\ \A p \in Alone(l) : Alike(v, d, M, s, p)
Complete  == Done => \A p \in Peaks(v, M) : lab[p] > 0
\* nothing that belongs to the last region was left out, except what earlier ones took
Closed    == \A l \in 1..n : \E s \in Alone(l) : /\ v[s] > M.peak
               /\ \A p \in Alone(l), q \in Place(M) : q \in Around(M, p) /\ Alike(v, d, M, s, q) => lab[q] \in 1..l
Patches   == Done => \A p, q \in Place(M) : lab[p] > 0 /\ lab[q] > 0 /\ q \in Around(M, p) => Patch(M, lab, p) = Patch(M, lab, q)
\* O02: larger, stronger objects are accepted if smaller, weaker ones are
Monotone == \A c \in 1..8 \cup {255} : \A a, b \in {900, 5000, 9000, 11700, 15900, 20000} : a <= b => (TRUE \in Accept(Rule(c), a, 4) => TRUE \in Accept(Rule(c), b, 4))
ASSUME Monotone
ASSUME \A y \in {1980, 1984, 1999, 2000, 2001, 2004, 2020, 2100} : YearOf(NewYear(y)) = y /\ YearOf(NewYear(y) - 1) = y - 1 /\ YearOf(NewYear(y) + 364) = y
Spec == Init /\ [][Next]_<<v, d, lab, n>>
=============================================================================
