-------------------------------- MODULE Exp --------------------------------
(* Exporting change records as maps: yearly maps of breaks with their type, the first and the most recent year of      *)
(* disturbance, maps of coefficients. A record: t0, t1 (start, end), brk (break date, 0: none), prob (probability),    *)
(* mag (change per band: blue, green, red, nir, swir1, swir2, thermal), sl (slopes of red, nir, swir1).                *)
EXTENDS Integers, Sequences, FiniteSets
K == INSTANCE Cls
None == -9999
YearOf(d) == LET y == (d * 400) \div 146097 + 1 IN
             CHOOSE z \in (y - 1)..(y + 1) : K!NewYear(z) <= d /\ d < K!NewYear(z + 1)
DoyOf(d) == d - K!NewYear(YearOf(d)) + 1
Abs(x) == IF x < 0 THEN -x ELSE x
\* ---- what is a break, and of which type ----
Confirmed(method, r) == r.brk > 0 /\ (method = "SCCDOFFLINE" \/ r.prob = 100)
Disturbance == 1
Regrowth == 2
Afforestation == 3
Regeneration == 4
Spectral(method) == IF method = "OBCOLD" THEN 250 ELSE 200
Greener(method, r) == LET c == Spectral(method) IN r.mag[4] > -c /\ r.mag[3] < c /\ r.mag[5] < c
Growing(r, s) == s.sl[2] > Abs(r.sl[2]) /\ s.sl[1] < -Abs(r.sl[1]) /\ s.sl[3] < -Abs(r.sl[3])
Flipped(r, s) == Cardinality({b \in 2..6 : (r.mag[b] < 0 /\ s.mag[b] > 0) \/ (r.mag[b] > 0 /\ s.mag[b] < 0)})
\* type of the k-th record's break in a pixel's records, after a break of type `last` (0: the first one)
TypeOf(method, rs, k, last) ==
  IF Greener(method, rs[k])
  THEN IF method # "SCCDOFFLINE" /\ k < Len(rs) /\ Growing(rs[k], rs[k + 1]) THEN Afforestation ELSE Regrowth
  ELSE IF method = "OBCOLD" /\ k > 1 /\ last = Disturbance /\ rs[k].brk - rs[k - 1].brk <= 1826 /\ Flipped(rs[k - 1], rs[k]) >= 4
       THEN Regeneration ELSE Disturbance
RECURSIVE Types(_, _, _)
Types(method, rs, k) ==           \* types of the first k records' breaks; 0: no break
  IF k = 0 THEN <<>> ELSE
  LET before == Types(method, rs, k - 1)
      seen == {j \in 1..(k - 1) : before[j] > 0}
      last == IF seen = {} THEN 0 ELSE before[CHOOSE j \in seen : \A i \in seen : i <= j]
  IN  Append(before, IF Confirmed(method, rs[k]) THEN TypeOf(method, rs, k, last) ELSE 0)
\* ---- a pixel in the map of a year: its last break of the year ----
Cell(method, rs, year) ==
  LET own == {k \in 1..Len(rs) : Confirmed(method, rs[k]) /\ YearOf(rs[k].brk) = year} IN
  IF own = {} THEN None ELSE
  LET k == CHOOSE j \in own : \A i \in own : i <= j IN
  1000 * Types(method, rs, Len(rs))[k] + DoyOf(rs[k].brk)
\* ---- first and most recent year whose map shows a disturbance ----
IsDisturbed(cell) == cell \div 1000 = Disturbance
Extreme(cells, lo, recent) ==
  LET ys == {i \in 1..Len(cells) : IsDisturbed(cells[i])} IN
  IF ys = {} THEN 0 ELSE lo - 1 + CHOOSE i \in ys : \A j \in ys : IF recent THEN j <= i ELSE i <= j
\* ---- coefficient maps: the record that covers 1 July; the last record holds for the year it ends in ----
LastDay(r) == K!NewYear(YearOf(r.t1) + 1) - 1
Covers(rs, k, day) == rs[k].t0 <= day /\ day < (IF k = Len(rs) THEN LastDay(rs[k]) ELSE rs[k + 1].t0)
Cover(rs, day) == IF \E k \in 1..Len(rs) : Covers(rs, k, day)
                  THEN CHOOSE k \in 1..Len(rs) : Covers(rs, k, day) /\ \A j \in 1..(k - 1) : ~Covers(rs, j, day) ELSE 0
Coef(rs, year, band, name) ==
  IF name = "cv"
  THEN LET own == {k \in 1..Len(rs) : Confirmed("COLD", rs[k]) /\ YearOf(rs[k].brk) = year} IN
       IF own = {} THEN None ELSE rs[CHOOSE k \in own : \A j \in own : k <= j].mag[band]
  ELSE LET k == Cover(rs, K!July(year)) IN IF k = 0 THEN None ELSE K!Feature(rs[k], band, name, K!July(year))
\* ---- place of a pixel: block b (from 1) of nx blocks a row, of w*h pixels; q: place in the block (from 0) ----
PlaceOf(b, q, nx, w, h) == LET row == ((b - 1) \div nx) * h + (q \div w)  col == ((b - 1) % nx) * w + (q % w) IN row * nx * w + col + 1
=============================================================================
