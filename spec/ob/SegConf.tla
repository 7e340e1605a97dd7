------------------------------ MODULE SegConf ------------------------------
(* Judges what the real object analysis made of recorded cases. got: lab, patch, date, mean (thousandths, by place;   *)
(* 0 where unlabelled), change (0/1), result (break dates), or the empty sequence where not observed.                 *)
EXTENDS Seg, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.OB_TRACE)
VARIABLES t, v, d, lab, n
vars == <<t, v, d, lab, n>>
M == Cases[t]
G == M.got
Lab0(m) == [p \in Place(m) |-> 0]
Load(k) == IF k > Len(Cases) THEN t' = k /\ v' = <<>> /\ d' = <<>> /\ lab' = <<>> /\ n' = 0
           ELSE LET m == Cases[k]  x == Smooth(m) IN
                /\ t' = k /\ v' = x /\ d' = Dates(m)
                /\ lab' = IF m.method = "floodfill" THEN Lab0(m) ELSE m.got.lab
                /\ n' = 0
Init == t = 0 /\ v = <<>> /\ d = <<>> /\ lab = <<>> /\ n = 0
SameParts(a, b) == \A p \in Place(M) : /\ (a[p] = 0) = (b[p] = 0)
                                     /\ a[p] # 0 => {q \in Place(M) : a[q] = a[p]} = {q \in Place(M) : b[q] = b[p]}
Objects == {lab[p] : p \in Place(M)} \ {0}
\* the library's patch of p against ours
PatchesRight == /\ \A p \in Place(M) : (lab[p] = 0) = (G.patch[p] = 0)
                /\ \A l \in Objects : LET ps == Of(M, lab, l)  one == CHOOSE p \in ps : TRUE IN
                     Patch(M, lab, one) = {q \in Place(M) : G.patch[q] = G.patch[one]}
Covers == IF M.years = <<>> THEN <<>> ELSE
          LET y == Context(M.when, M.start)  i == CHOOSE i \in 1..Len(M.years) : M.years[i] = y IN M.maps[i]
Early == M.when - M.step < M.start
Verdicts == [l \in Objects |-> LET ps == Of(M, lab, l)  one == CHOOSE p \in ps : TRUE IN
               Accept(RuleOf(M, Covers, ps), Mean(v, ps), Cardinality(Patch(M, lab, one)))]
Wrong ==
  LET ver == Verdicts  dd == [p \in Place(M) |-> IF d[p] < 0 THEN 0 ELSE d[p]]  IN
  (IF G.date # <<>> /\ \E p \in Place(M) : G.date[p] # d[p] THEN {"dates"} ELSE {})
  \cup (IF G.lab # <<>> /\ M.method = "floodfill" /\ ~SameParts(lab, G.lab) THEN {"superpixels"} ELSE {})
  \cup (IF G.lab # <<>> /\ M.method # "floodfill" /\ \E p \in Place(M) : lab[p] # 0 /\ ~(v[p] > M.low - 3) THEN {"superpixels"} ELSE {})
  \cup (IF G.patch # <<>> /\ ~PatchesRight THEN {"patches"} ELSE {})
  \cup (IF G.mean # <<>> /\ \E l \in Objects : LET x == Mean(v, Of(M, lab, l)) IN \E p \in Of(M, lab, l) : Dist(G.mean[p], x) > 3 THEN {"means"} ELSE {})
  \cup (IF G.change # <<>> /\ \E p \in Place(M) : IF lab[p] = 0 THEN G.change[p] # 0 ELSE (G.change[p] = 1) \notin ver[lab[p]] \/ G.change[p] \notin {0, 1} THEN {"decision"} ELSE {})
  \cup (IF G.change # <<>> /\ \E l \in Objects : \E p, q \in Of(M, lab, l) : G.change[p] # G.change[q] THEN {"decision"} ELSE {})
  \cup (IF G.result = <<>> THEN {}
        ELSE IF Early THEN (IF \A p \in Place(M) : G.result[p] = 0 THEN {} ELSE {"early result"})
        ELSE IF \E p \in Place(M) : G.result[p] # 0 /\ (lab[p] = 0 \/ G.result[p] # dd[p] \/ TRUE \notin ver[lab[p]]) THEN {"break dates"}
        ELSE IF \E p \in Place(M) : lab[p] # 0 /\ G.result[p] = 0 /\ dd[p] # 0 /\ FALSE \notin ver[lab[p]] THEN {"breaks missing"} ELSE {})
Next == IF t = 0 THEN Load(1)
        ELSE /\ t <= Len(Cases)
             /\ IF M.method = "floodfill" /\ Open(v, M, lab) # {}
                THEN \E s \in {CHOOSE s \in Highest(v, Open(v, M, lab)) : TRUE} : LET R == Region(v, d, M, lab, s) IN
                       /\ n' = n + 1 /\ lab' = [p \in Place(M) |-> IF p \in R THEN n' ELSE lab[p]] /\ UNCHANGED <<t, v, d>>
                ELSE /\ LET w == Wrong IN IF w = {} THEN TRUE ELSE PrintT(<<"WRONG", t, w>>)
                     /\ Load(t + 1)
Seen == t = Len(Cases) + 1 => PrintT(<<"SEEN", Len(Cases)>>)
=============================================================================
