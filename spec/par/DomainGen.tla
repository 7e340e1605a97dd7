----------------------------- MODULE DomainGen -----------------------------
(* Calls with one or two parameters at, next to and away from every bound of their domains, and of every wrong type;  *)
(* and series of every mix of shapes with one or two of them odd. TLC prints each with its verdict.                   *)
EXTENDS Domain, TLC
V(t, n) == [t |-> t, n |-> n]
Odd == {V("nan", 0), V("none", 0), V("str", 0), V("list", 0)}
Numbers(p) ==
  LET d == Domain[p]
      at(b) == {V("int", b - 1000), V("int", b), V("int", b + 1000), V("real", b - 1), V("real", b), V("real", b + 1), V("npint", b), V("npreal", b),
                V("npint", b + 1000), V("npint", b - 1000)}
      far == {V("int", -7000), V("int", 7000), V("real", 3500), V("npreal", 3500), V("real", -3500), V("npint", 5000)}
  IN (IF "lo" \in DOMAIN d THEN at(d.lo) ELSE {}) \cup (IF "hi" \in DOMAIN d THEN at(d.hi) ELSE {}) \cup far
     \cup (IF p = "conse" THEN at(MaxConse) ELSE {})
Values(p) == Odd \cup {V("bool", 0), V("bool", 1000)} \cup (IF Domain[p].kind = "flag" THEN {V("int", 0), V("int", 1000), V("real", 1000), V("int", 2000)} ELSE Numbers(p))
\* one value of each kind, for pairs
Few(f, p) == {v \in Values(p) : v \in {V("nan", 0), V("bool", 0), V("bool", 1000), V("int", 7000), V("real", 3500)}
                               \/ ("lo" \in DOMAIN Domain[p] /\ v \in {V("int", Domain[p].lo), V("int", Domain[p].lo + 1000), V("int", Domain[p].lo - 1000)})
                               \/ ("hi" \in DOMAIN Domain[p] /\ v \in {V("int", Domain[p].hi), V("int", Domain[p].hi - 1000)})}
PS(f) == {Params[f][i] : i \in 1..Len(Params[f])}
Singles(f) == {[q \in {p} |-> v] : <<p, v>> \in UNION {{p} \X Values(p) : p \in PS(f)}}
Pairs(f) == UNION {UNION {{(p :> v) @@ (q :> w) : v \in Few(f, p), w \in Few(f, q)} : q \in {x \in PS(f) : x # p}} : p \in PS(f)}
Calls(f) == {<<>>} \cup Singles(f) \cup Pairs(f)
\* shapes of the series of n observations
N == 100
Shapes == {<<N>>, <<N - 1>>, <<N + 1>>, <<N, 1>>, <<N, 2>>, <<1, N>>, <<>>, <<0>>}
Mixes == {[i \in 1..9 |-> IF i = a THEN s ELSE IF i = b THEN z ELSE <<N>>] : a \in 1..9, b \in 1..9, s \in Shapes, z \in {<<N>>, <<N - 1>>, <<N, 1>>}}
         \cup {[i \in 1..9 |-> s] : s \in {<<N>>, <<N - 1>>, <<N + 1>>, <<N, 1>>, <<N, 2>>}}
VARIABLE done
Init == /\ done = FALSE
        /\ \A f \in Functions : \A c \in Calls(f) : PrintT(<<"CALL", f, c, Verdict(f, c)>>)
        /\ \A m \in Mixes : PrintT(<<"SHAPE", m, ShapeVerdict(m)>>)
        /\ \A s \in {<<0>>, <<1>>, <<2>>, <<N>>, <<N + 1>>, <<1, 1>>, <<2, 1>>, <<N, 1>>, <<>>} : PrintT(<<"BREAKS", s, BreakVerdict(s)>>)
        \* the domains: what is refused with one parameter is refused whatever the others; defaults are taken
        /\ \A f \in Functions : /\ Verdict(f, <<>>) = "accept"
                                /\ \A c \in Pairs(f) : (\E p \in DOMAIN c : Verdict(f, [q \in {p} |-> c[q]]) = "reject") <=> Verdict(f, c) = "reject"
Next == done' = TRUE
=============================================================================
