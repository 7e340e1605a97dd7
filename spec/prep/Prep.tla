-------------------------------- MODULE Prep --------------------------------
(* Preparing stacks: images become one file per block and image, with eight layers (blue, green, red, nir, swir1,       *)
(* swir2, thermal, class); an image is taken if its date is asked for and enough of it is clear; what is not of the     *)
(* pixel's own path counts as fill; a block with nothing to see is left out.                                            *)
EXTENDS Integers, Sequences, FiniteSets
Clear == 0
Water == 1
Shadow == 2
Snow == 3
Cloud == 4
Fill == 255
Bit(v, k) == (v \div (2 ^ k)) % 2 = 1
\* priority: fill, cloud, shadow, snow, water, clear
Class(layout, v) ==
  CASE layout \in {"HLS", "HLS14"} ->
         (IF v = 255 THEN Fill ELSE IF Bit(v, 1) \/ Bit(v, 2) THEN Cloud ELSE IF Bit(v, 3) THEN Shadow
          ELSE IF Bit(v, 4) THEN Snow ELSE IF Bit(v, 5) THEN Water ELSE Clear)
    [] layout = "ARD" ->
         (IF Bit(v, 5) THEN Cloud ELSE IF Bit(v, 3) THEN Shadow ELSE IF Bit(v, 4) THEN Snow ELSE IF Bit(v, 2) THEN Water
          ELSE IF Bit(v, 1) THEN Clear ELSE Fill)
    [] layout \in {"ARD-C2", "C2"} ->
         (IF Bit(v, 3) \/ Bit(v, 1) THEN Cloud ELSE IF Bit(v, 4) THEN Shadow ELSE IF Bit(v, 5) THEN Snow ELSE IF Bit(v, 7) THEN Water
          ELSE IF Bit(v, 6) THEN Clear ELSE Fill)
\* ---- values: hundredths of a per cent, tenths of a kelvin; the second collection comes scaled ----
Reflectance(layout, v) == IF layout \in {"ARD-C2", "C2"} THEN (275 * v - 2000000) \div 1000 ELSE v
Thermal(layout, v) == IF layout \in {"HLS", "HLS14"} THEN 0
                      ELSE IF layout = "ARD" THEN v ELSE ((v * 341) \div 10000) + ((v * 802) \div 10000000) + 1490
\* ---- an image: qa (raw, row by row), date, path, fine (readable); what is asked: lo, hi (dates), least (per mille) ----
Seen(layout, img, i, own) == IF own # <<>> /\ own[i] # img.path THEN Fill ELSE Class(layout, img.qa[i])
Count(layout, img, S) == Cardinality({i \in 1..Len(img.qa) : Class(layout, img.qa[i]) \in S})
Enough(layout, img, least) == least = 0 \/ 1000 * Count(layout, img, {Clear, Water}) > least * Count(layout, img, {Clear, Water, Shadow, Snow, Cloud})
Taken(layout, img, ask) == img.fine /\ ask.lo <= img.date /\ img.date <= ask.hi /\ Enough(layout, img, ask.least)
\* ---- blocks: nx in a row, w*h pixels each, of an image of ncol columns; index of the q-th pixel (from 0) of block b ----
Index(b, q, nx, w, h, ncol) == (((b - 1) \div nx) * h + (q \div w)) * ncol + ((b - 1) % nx) * w + (q % w) + 1
Useful(layout, img, b, g, own) == \E q \in 0..(g.w * g.h - 1) : Seen(layout, img, Index(b, q, g.nx, g.w, g.h, g.ncol), own) \in {Clear, Water, Snow}
\* ---- processes: the k-th image (from 0) is that of process k % n ----
Share(n, r, count) == {k \in 0..(count - 1) : k % n = r}
Greatest(a, b) == IF a > b THEN a ELSE b
Least(a, b) == IF a < b THEN a ELSE b
SpanOf(dates, ask) == <<Greatest(CHOOSE d \in dates : \A e \in dates : d <= e, ask.lo), Least(CHOOSE d \in dates : \A e \in dates : e <= d, ask.hi)>>
=============================================================================
