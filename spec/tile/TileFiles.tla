----------------------------- MODULE TileFiles -----------------------------
(* The files of a tile's result folder and what they say about each other. A tile c has c.n blocks, c.m change maps,  *)
(* c.y yearly classifications (0: no seed map) and is processed by OB-COLD (c.object) or per pixel only.              *)
EXTENDS Integers, Sequences, FiniteSets
Blocks(c) == 1..c.n   Maps(c) == 1..c.m   Years(c) == 1..c.y
BFlag(b) == <<"bflag", b>>      Rec(b) == <<"rec", b>>          Cm(b) == <<"cmb", b>>      Cmd(b) == <<"dateb", b>>
Map(k) == <<"map", k>>          DMap(k) == <<"dmap", k>>
Feat(y, b) == <<"feat", y, b>>  F1(b) == <<"f1", b>>            Rf == <<"rf">>
Cls(y, b) == <<"cls", y, b>>    F3(b) == <<"f3", b>>            Year(y) == <<"year", y>>
Obia(k, b) == <<"obia", k, b>>  OFlag(k) == <<"oflag", k>>      Ob(b) == <<"ob", b>>

BFlags(c) == {BFlag(b) : b \in Blocks(c)}     AllMaps(c) == {Map(k) : k \in Maps(c)} \cup {DMap(k) : k \in Maps(c)}
F1s(c) == {F1(b) : b \in Blocks(c)}           F3s(c) == {F3(b) : b \in Blocks(c)}
AllYears(c) == {Year(y) : y \in Years(c)}     OFlags(c) == {OFlag(k) : k \in Maps(c)}
Feats(c) == {Feat(y, b) : y \in Years(c), b \in Blocks(c)}   Clss(c) == {Cls(y, b) : y \in Years(c), b \in Blocks(c)}
Obias(c) == {Obia(k, b) : k \in Maps(c), b \in Blocks(c)}
Files(c) == BFlags(c) \cup {Rec(b) : b \in Blocks(c)} \cup
         (IF c.object THEN {Cm(b) : b \in Blocks(c)} \cup {Cmd(b) : b \in Blocks(c)} \cup AllMaps(c) \cup OFlags(c) \cup Obias(c)
                           \cup {Ob(b) : b \in Blocks(c)} \cup
            (IF c.y > 0 THEN Feats(c) \cup F1s(c) \cup {Rf} \cup Clss(c) \cup F3s(c) \cup AllYears(c) ELSE {}) ELSE {})

\* what a flag file vouches for, and the files whose very presence vouches for them
Vouched(c, f) ==
  CASE f[1] = "bflag" -> IF c.object THEN {Rec(f[2]), Cm(f[2]), Cmd(f[2])} ELSE {Rec(f[2])}
    [] f[1] = "f1" -> {Feat(y, f[2]) : y \in Years(c)}
    [] f[1] = "f3" -> {Cls(y, f[2]) : y \in Years(c)}
    [] f[1] = "oflag" -> {Obia(f[2], b) : b \in Blocks(c)}
    [] OTHER -> {}
Guards(c, f) == {g \in Files(c) : f \in Vouched(c, g)}
SelfVouching == {"map", "dmap", "rf", "year"}
\* what a product is computed from
Inputs(c, f) ==
  CASE f[1] = "map" -> {Cm(b) : b \in Blocks(c)}
    [] f[1] = "dmap" -> {Cmd(b) : b \in Blocks(c)}
    [] f[1] = "feat" -> {Rec(f[3])}
    [] f[1] = "rf" -> Feats(c)
    [] f[1] = "cls" -> {Rf, Feat(f[2], f[3])}
    [] f[1] = "year" -> {Cls(f[2], b) : b \in Blocks(c)}
    [] f[1] = "obia" -> IF f[2] = 1 THEN {} ELSE {Map(f[2]), Map(f[2] - 1), DMap(f[2]), DMap(f[2] - 1)} \cup AllYears(c)
    [] f[1] = "ob" -> {Obia(k, f[2]) : k \in Maps(c)}
    [] OTHER -> Vouched(c, f)
Temporary == {"feat", "f1", "cls", "f3"}
\* temporaries may be cleaned away once everything made from them is there
CleanedAway(c, f, there) == f[1] \in Temporary /\ AllYears(c) \subseteq there
============================================================================
