------------------------------ MODULE RuleGen ------------------------------
(* Every land cover, sizes over the range and means around each threshold: the decision of the specification; with   *)
(* the default parameters (0) and with steep ones of the caller (1), where the size factor reaches its limit.         *)
EXTENDS Seg, TLC
Sizes == {1, 2, 3, 7, 10, 50, 99, 1000, 10000, 123456, 1000000, 25000000}
Classes == 1..8 \cup {0, 9, 255, 256}          \* 256: no land cover map at all
Uniform == {<<>>, <<11070, 50>>, <<15086, 500>>, <<4605, 0>>, <<15086, 400>>}
\* parameters of the caller instead of the defaults
Steep(c) == IF c \in 1..8 THEN <<8000 + 1000 * c, 300 + 40 * c>> ELSE IF c = 255 THEN <<9000, 350>> ELSE <<>>
RuleFor(q, c, u) == LET R(k) == IF q = 0 THEN Rule(k) ELSE Steep(k) IN IF c = 256 THEN R(255) ELSE IF u # <<>> THEN u ELSE R(c)
Means(r, n) == LET e == IF r = <<>> THEN 15000 ELSE (r[1] * 1000) \div (Scale(r[2], n) \div 10) IN
               {(e * k) \div 1000 : k \in {1, 500, 930, 990, 995, 1005, 1010, 1070, 2000}} \cup {-9999000, 11200, 15800, 16000, 11700}
VARIABLE done
Init == /\ done = FALSE
        /\ \A q \in {0, 1}, n \in Sizes, c \in Classes, u \in Uniform : \A x \in Means(RuleFor(q, c, u), n) :
             LET r == RuleFor(q, c, u)
                 a == IF x < 0 THEN {FALSE} ELSE Accept(r, x, n) IN
             IF Cardinality(a) = 1 THEN PrintT(<<"RULE", q, n, c, x, u, a>>) ELSE TRUE
Next == done' = TRUE
=============================================================================
