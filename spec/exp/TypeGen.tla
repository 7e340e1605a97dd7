------------------------------ MODULE TypeGen ------------------------------
(* Every kind of break around the limits of its type, with the type it has under each method. *)
EXTENDS Exp, TLC
Mag(red, nir, swir) == <<10, -20, red, nir, swir, 30, 40>>
Rec(brk, mag, sl) == [t0 |-> brk - 300, t1 |-> brk - 8, brk |-> brk, prob |-> 100, mag |-> mag, sl |-> sl]
Ms == {"COLD", "OBCOLD", "SCCDOFFLINE"}
T(rs, k) == <<Types("COLD", rs, Len(rs))[k], Types("OBCOLD", rs, Len(rs))[k], Types("SCCDOFFLINE", rs, Len(rs))[k]>>
VARIABLE c
\* limits of greening, and slopes of the next record around the opposite of this one's; <<>>: no next record
Green == {<<"GREEN", red, nir, swir, p, d>> : red \in {199, 200, 201, 249, 250}, nir \in {-251, -250, -249, -200, -199}, swir \in {199, 200, 249, 250, 251},
          p \in {-7, 7}, d \in {<<i, j, l>> : i \in {-1, 0, 1}, j \in {-1, 0, 1}, l \in {-1, 0, 1}} \cup {<<>>}}
Sign(s, m) == [b \in 1..7 |-> IF b \in s THEN -m[b] ELSE m[b]]
Back == {<<"BACK", gap, first, s, zero>> : gap \in {1826, 1827, 700}, first \in {1, 2}, s \in SUBSET (1..6), zero \in {0, 3}}
Case(x) ==
  IF x[1] = "GREEN"
  THEN LET a == Rec(730500, Mag(x[2], x[3], x[4]), <<x[5], -x[5], x[5]>>)
           b == [Rec(0, Mag(0, 0, 0), <<-7 - x[6][1], 7 + x[6][2], -7 - x[6][3]>>) EXCEPT !.prob = 0]
       IN  IF x[6] = <<>> THEN <<a>> ELSE <<a, b>>
  ELSE LET m == IF x[3] = 1 THEN <<5, 60, 70, -300, 80, 90, 15>> ELSE <<5, 60, 70, 300, 80, 90, 15>>
           q == IF x[3] = 1 THEN <<5, 60, 70, -300, 80, 90, 15>> ELSE <<5, 60, 70, 300, 320, 90, 15>>
       IN  <<Rec(730500, m, <<0, 0, 0>>), Rec(730500 + x[2], [Sign(x[4], q) EXCEPT ![3] = IF x[5] = 3 THEN 0 ELSE @], <<0, 0, 0>>)>>
Init == c \in Green \cup Back
Next == UNCHANGED c
Show == LET rs == Case(c)  k == IF c[1] = "GREEN" THEN 1 ELSE 2 IN
        PrintT(<<"TYPE", [i \in 1..Len(rs) |-> <<rs[i].brk, rs[i].prob, rs[i].mag, rs[i].sl>>], k, T(rs, k)>>)
=============================================================================
