------------------------------- MODULE Pixel -------------------------------
(* Which observations of a pixel take part: quality codes, valid ranges, repeated dates, fallback sets.
   An input p has fields dates, qa, bands (seven sequences of raw integers: blue green red nir swir1 swir2
   thermal) and c2 (collection 2: thermal not tested).                                                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Clear == 0
Water == 1
Shadow == 2
Snow == 3
Cloud == 4
FillQa == 255

Idx(q) == [k \in 1..Len(q) |-> k]
Pick(q, Test(_)) == SelectSeq(Idx(q), Test)
Count(q, Test(_)) == Len(Pick(q, Test))

BadInput(p) ==
  \/ \E k \in 1..Len(p.qa) : p.qa[k] \notin {Clear, Water, Shadow, Snow, Cloud, FillQa}
  \/ \E k \in 1..(Len(p.dates) - 1) : p.dates[k] > p.dates[k + 1]

ClearSum(p) == Count(p.qa, LAMBDA k : p.qa[k] \in {Clear, Water})
SnowSum(p)  == Count(p.qa, LAMBDA k : p.qa[k] = Snow)

Thermal(p, k) == IF p.c2 \/ p.bands[7][k] = 0 THEN 0 ELSE p.bands[7][k] * 10 - 27320
InRange(p, k) ==
  /\ p.bands[1][k] > -200 /\ p.bands[1][k] < 10000
  /\ \A c \in 2..6 : p.bands[c][k] > 0 /\ p.bands[c][k] < 10000
  /\ Thermal(p, k) > -9320 /\ Thermal(p, k) < 7070
  /\ p.qa[k] < FillQa

FirstOfDate(p, ks) ==   \* drop observations repeating the date of the one kept before
  FoldLeft(LAMBDA acc, k : IF acc # <<>> /\ p.dates[acc[Len(acc)]] = p.dates[k] THEN acc ELSE Append(acc, k), <<>>, ks)

UsableObs(p) == FirstOfDate(p, Pick(p.qa, LAMBDA k : p.qa[k] \in {Clear, Water} /\ InRange(p, k)))

(* --- too few clear observations --- *)
\* snow / (snow + clear + 0.01) > 0.75
MostlySnow(p) == LET sn == SnowSum(p) cl == ClearSum(p) IN 10000 * sn > 7500 * (sn + cl) + 75
SnowObs(p) == Pick(p.qa, LAMBDA k : p.qa[k] \in {Snow, Clear, Water})
\* observations of ks usable for band c of a snow model
SnowBand(p, ks, c) ==
  IF c < 7 THEN SelectSeq(ks, LAMBDA k : p.bands[c][k] > 0 /\ p.bands[c][k] < 10000)
  ELSE SelectSeq(ks, LAMBDA k : p.c2 \/ (p.bands[7][k] * 10 - 27320 > -9320 /\ p.bands[7][k] * 10 - 27320 < 7070))

Sorted(q) == SortSeq(q, LAMBDA x, y : x < y)
NotBright(p, ks) ==    \* green below median + 400
  LET g == Sorted([n \in 1..Len(ks) |-> p.bands[2][ks[n]]])
      h == Len(g) \div 2
      med2 == IF Len(g) % 2 = 1 THEN 2 * g[h + 1] ELSE g[h] + g[h + 1]
  IN IF ks = <<>> THEN <<>> ELSE SelectSeq(ks, LAMBDA k : 2 * p.bands[2][k] < med2 + 800)
UnclearObs(p) == NotBright(p, FirstOfDate(p, Pick(p.qa, LAMBDA k : InRange(p, k))))
=============================================================================
