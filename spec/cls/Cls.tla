-------------------------------- MODULE Cls --------------------------------
(* Classification of a tile from its change records: features of a date, quotas of training samples, classified maps. *)
(* A record: pos, t0 (start), t1 (end), coefs (7 bands of <<constant, slope per 1e4, a1, b1, a2, b2, a3, b3>>; the    *)
(* slope in 1e4 units, so that slope * day is integral), rmse (7 bands). NaN stands for not a number.                 *)
EXTENDS Integers, Sequences, FiniteSets
NaN == 99999999
Nothing == -9999
NewYear(y) == 365 * (y - 1) + ((y - 1) \div 4) - ((y - 1) \div 100) + ((y - 1) \div 400) + 1
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
July(y) == NewYear(y) + 181 + IF Leap(y) THEN 1 ELSE 0       \* ordinal of 1 July
\* the record that covers a day: from its start to the next one's start, the last one up to its end; 0: none
Covers(rs, k, day) == rs[k].t0 <= day /\ day < (IF k = Len(rs) THEN rs[k].t1 ELSE rs[k + 1].t0)
Cover(rs, day) == IF \E k \in 1..Len(rs) : Covers(rs, k, day)
                  THEN CHOOSE k \in 1..Len(rs) : Covers(rs, k, day) /\ \A j \in 1..(k - 1) : ~Covers(rs, j, day) ELSE 0
Num(x) == IF x = NaN THEN 0 ELSE x
Feature(r, band, name, day) ==
  LET c == r.coefs[band] IN
  CASE name = "a0" -> IF c[1] = NaN \/ c[2] = NaN THEN 0 ELSE c[1] + c[2] * day
    [] name = "c1" -> Num(c[2])
    [] name = "a1" -> Num(c[3])
    [] name = "b1" -> Num(c[4])
    [] name = "a2" -> Num(c[5])
    [] name = "b2" -> Num(c[6])
    [] name = "a3" -> Num(c[7])
    [] name = "b3" -> Num(c[8])
    [] name = "rmse" -> Num(r.rmse[band])
\* a pixel's features of a day, band by band
Features(rs, day, names, nb) ==
  LET k == Cover(rs, day)  nf == Len(names) IN
  [i \in 1..(nb * nf) |-> IF k = 0 THEN Nothing ELSE Feature(rs[k], ((i - 1) \div nf) + 1, names[((i - 1) % nf) + 1], day)]
\* ---- place of position pos in the tile of n blocks a row, of w*h pixels ----
RowOf(pos, ncol) == (pos - 1) \div ncol
ColOf(pos, ncol) == (pos - 1) % ncol
\* ---- quotas ----
Round(a, b) == LET q == a \div b  r == a % b IN IF 2 * r > b \/ (2 * r = b /\ q % 2 = 1) THEN q + 1 ELSE q     \* half to even
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Least2(a, b) == IF a < b THEN a ELSE b
Most2(a, b) == IF a > b THEN a ELSE b
Quota(counts, total, lo, hi) ==
  LET n == SumTo(counts, Len(counts)) IN
  [c \in 1..Len(counts) |-> Least2(Most2(Least2(Round(counts[c] * total, n), hi), lo), counts[c])]
\* ---- the stand-in model: any function of the features will do ----
RECURSIVE Mix(_, _)
Mix(f, i) == IF i = 0 THEN 0 ELSE (Mix(f, i - 1) * 3 + f[i]) % 10007
Predict(f) == 1 + (Mix(f, Len(f)) % 8)
NoClass == 255
ClassOf(f) == IF \A i \in 1..Len(f) : f[i] = Nothing THEN NoClass ELSE Predict(f)
=============================================================================
