-------------------------------- MODULE Grid --------------------------------
(* Where the pixels of a tile are: a tile g of g.x by g.y blocks, each g.w pixels wide and g.h high. Blocks are       *)
(* numbered from 1 row by row, pixels of a block from 0 row by row, positions of the tile from 1 row by row.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Layouts, Sampled      \* Layouts: all their pixels; Sampled: pixels <<g, b, i>> of big ones
Cols(g) == g.x * g.w
Rows(g) == g.y * g.h
BlockX(g, b) == ((b - 1) % g.x) + 1
BlockY(g, b) == ((b - 1) \div g.x) + 1
Row(g, b, i) == (BlockY(g, b) - 1) * g.h + (i \div g.w) + 1
Col(g, b, i) == (BlockX(g, b) - 1) * g.w + (i % g.w) + 1
Pos(g, b, i) == (Row(g, b, i) - 1) * Cols(g) + Col(g, b, i)
\* from a position alone
PRow(g, p) == ((p - 1) \div Cols(g)) + 1
PCol(g, p) == ((p - 1) % Cols(g)) + 1
PBlock(g, p) == ((PRow(g, p) - 1) \div g.h) * g.x + ((PCol(g, p) - 1) \div g.w) + 1
PIndex(g, p) == ((PRow(g, p) - 1) % g.h) * g.w + ((PCol(g, p) - 1) % g.w)
VARIABLES g, b, i
Init == \/ g \in Layouts /\ b \in 1..(g.x * g.y) /\ i \in 0..(g.w * g.h - 1)
        \/ \E s \in Sampled : g = s[1] /\ b = s[2] /\ i = s[3]
Next == UNCHANGED <<g, b, i>>
There == Pos(g, b, i) \in 1..(Rows(g) * Cols(g))
Inverse == LET p == Pos(g, b, i) IN
  PRow(g, p) = Row(g, b, i) /\ PCol(g, p) = Col(g, b, i) /\ PBlock(g, p) = b /\ PIndex(g, p) = i
\* no two pixels share a position, none is left out
ASSUME \A h \in Layouts : Cardinality({Pos(h, c, j) : c \in 1..(h.x * h.y), j \in 0..(h.w * h.h - 1)}) = h.x * h.y * h.w * h.h
Show == PrintT(<<"CELL", g.x, g.y, g.w, g.h, b, i, BlockX(g, b), BlockY(g, b), Row(g, b, i), Col(g, b, i), Pos(g, b, i)>>)
=============================================================================
