----------------------------- MODULE CoverGen -----------------------------
(* All lists of up to three records over a few days, every day: the record that covers it. *)
EXTENDS Cls, TLC
D == 1..7
R == {[t0 |-> a, t1 |-> b] : a \in D, b \in {x \in D : TRUE}}
Good(s) == (\A k \in 1..Len(s) : s[k].t0 <= s[k].t1) /\ (\A k \in 1..(Len(s) - 1) : s[k].t1 < s[k + 1].t0)
Lists == {s \in {<<a>> : a \in R} \cup {<<a, b>> : a, b \in R} \cup (({<<a, b, c>> : a, b, c \in {r \in R : r.t1 - r.t0 \in 0..2}})) : Good(s)}
VARIABLE done
Init == /\ done = FALSE
        /\ \A s \in Lists : \A day \in 0..8 : PrintT(<<"COVER", [k \in 1..Len(s) |-> s[k].t0 * 10 + s[k].t1], day, Cover(s, day)>>)
\* records never cover a day twice; a day within a record but for the last day is covered
        /\ \A s \in Lists : \A day \in 0..8 : /\ Cardinality({k \in 1..Len(s) : Covers(s, k, day)}) <= 1
                                             /\ \A k \in 1..Len(s) : s[k].t0 <= day /\ day < s[k].t1 => Cover(s, day) = k
Next == done' = TRUE
=============================================================================
