------------------------------ MODULE YearGen ------------------------------
(* Dates around every turn of the year against every start: the year whose land cover is the context.                 *)
EXTENDS Seg, TLC
Years == 1982..2026
Days(y) == {NewYear(y), NewYear(y) + 1, NewYear(y) + 58, NewYear(y) + 59, NewYear(y) + 181, NewYear(y + 1) - 1, NewYear(y + 1) - 2}
VARIABLE done
Init == /\ done = FALSE
        /\ \A s \in {1982, 1984, 1999, 2000, 2001, 2019} : \A a \in {NewYear(s), NewYear(s) + 200, NewYear(s + 1) - 1} :
             \A y \in s..2026 : \A x \in Days(y) : x >= a => PrintT(<<"YEAR", x, a, Context(x, a)>>)
Next == done' = TRUE
=============================================================================
