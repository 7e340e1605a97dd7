-------------------------------- MODULE Seg --------------------------------
(* Object analysis of a snapshot: change magnitudes (times 100) and dates of an h*w map become superpixels grown from *)
(* the peaks of the smoothed map, patches of touching superpixels, accepted or rejected objects, and break dates.     *)
(* A case m: h, w, cm, date, l1, l1date (row-major; NA = -9999), prob, ratio (percent), interval, peak (1e5 units),   *)
(* low: the least smoothed value of the other methods' mask.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, ObNum
NA == -9999
None == -1
Place(m) == 1..(m.h * m.w)
Row(m, p) == (p - 1) \div m.w
Col(m, p) == (p - 1) % m.w
Dist(a, b) == IF a > b THEN a - b ELSE b - a
Around(m, p) == {q \in {(Row(m, p) + i) * m.w + Col(m, p) + j + 1 : i \in {k \in -1..1 : Row(m, p) + k \in 0..(m.h - 1)},
                                                                j \in {k \in -1..1 : Col(m, p) + k \in 0..(m.w - 1)}} : q # p}
Filling == {"floodfill"}
\* ---- the map that is segmented ----
NoValue(m) == IF m.prob THEN 0 ELSE NA
\* magnitudes of the previous snapshot stand in where there is none, if they are worth it
Weak(m, x) == IF m.prob THEN x < m.peak ELSE x # NA /\ x * 1000 < m.peak
Before(m, p) == IF (m.prob \/ m.method = "floodfill") /\ Weak(m, m.l1[p]) THEN NoValue(m) ELSE m.l1[p]
Magnitude(m, p) == IF m.cm[p] = NoValue(m) THEN Before(m, p) ELSE m.cm[p]
Value(m, p) == IF Magnitude(m, p) = NoValue(m) THEN None ELSE IF m.prob THEN Magnitude(m, p) ELSE Magnitude(m, p) * 1000
Dates(m) == [p \in Place(m) |-> IF m.date[p] = NA THEN m.l1date[p] ELSE m.date[p]]
Least(m) == IF m.method = "floodfill" THEN (m.peak * (100 - m.ratio)) \div 100 ELSE m.low
Smooth(m) == NumSmooth(m.h, m.w, [p \in Place(m) |-> IF Value(m, p) # None /\ Value(m, p) >= Least(m) THEN Value(m, p) ELSE None])
\* ---- superpixels: from the highest peak not yet taken, over neighbours alike in magnitude and date ----
Peaks(v, m) == {p \in Place(m) : v[p] > m.peak}
Alike(v, d, m, s, p) == v[p] # None /\ Dist(v[p], v[s]) <= (v[s] * m.ratio) \div 100 /\ Dist(d[p], d[s]) <= m.interval
RECURSIVE Reach(_, _, _, _)
Reach(m, ok, got, edge) == LET next == {q \in UNION {Around(m, p) : p \in edge} : ok[q]} \ got IN
                           IF next = {} THEN got ELSE Reach(m, ok, got \cup next, next)
Region(v, d, m, lab, s) == Reach(m, [p \in Place(m) |-> lab[p] = 0 /\ Alike(v, d, m, s, p)], {s}, {s})
Open(v, m, lab) == {p \in Peaks(v, m) : lab[p] = 0}
Highest(v, ps) == {p \in ps : \A q \in ps : v[q] <= v[p]}
\* ---- patches: superpixels that touch ----
Patch(m, lab, p) == Reach(m, [q \in Place(m) |-> lab[q] > 0], {p}, {p})
\* ---- objects ----
Of(m, lab, l) == {p \in Place(m) : lab[p] = l}
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Total(f, S \ {x})
\* mean smoothed magnitude in thousandths
Mean(v, ps) == Total([p \in ps |-> v[p] \div 100], ps) \div Cardinality(ps)
\* the commonest land cover (the lowest of the commonest)
Mode(c, ps) == LET n(k) == Cardinality({p \in ps : c[p] = k})  ks == {c[p] : p \in ps}
                   top == {k \in ks : \A j \in ks : n(j) <= n(k)}
               IN  CHOOSE k \in top : \A j \in top : k <= j
\* threshold (thousandths) and size slope (thousandths) by land cover
Rule(class) == CASE class \in {1, 4, 6} -> <<11070, 100>>
                 [] class \in {2, 3, 5, 7, 8} -> <<15086, 50>>
                 [] class = 255 -> <<11070, 0>>
                 [] OTHER -> <<>>
\* mean * min(2, 0.95 + slope * log10(size)) > threshold; both answers near the threshold
Scale(slope, size) == LET x == 9500 + (NumLog(size) * slope) \div 1000 IN IF x > 20000 THEN 20000 ELSE x
Accept(rule, mean, size) ==
  IF rule = <<>> THEN {FALSE} ELSE
  LET x == mean * (Scale(rule[2], size) \div 10)  t == rule[1] * 1000  near == t \div 400 IN
  IF x > t + near THEN {TRUE} ELSE IF x < t - near THEN {FALSE} ELSE BOOLEAN
RuleOf(m, c, ps) == IF c = <<>> THEN Rule(255) ELSE IF m.uniform # <<>> THEN m.uniform ELSE Rule(Mode(c, ps))
\* ---- land cover of the year before, from the first year on ----
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
NewYear(y) == 365 * (y - 1) + (y - 1) \div 4 - (y - 1) \div 100 + (y - 1) \div 400 + 1     \* ordinal of 1 January
YearOf(d) == CHOOSE y \in ((d \div 366) .. (d \div 365 + 1)) : NewYear(y) <= d /\ d < NewYear(y + 1)
Context(date, start) == IF YearOf(date) - 1 < YearOf(start) THEN YearOf(start) ELSE YearOf(date) - 1
=============================================================================
