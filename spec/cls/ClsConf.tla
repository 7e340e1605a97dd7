------------------------------ MODULE ClsConf ------------------------------
(* Judges what the real classifier made of recorded cases. *)
EXTENDS Cls, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CLS_TRACE)
VARIABLE t
M == Cases[t]
Dist(a, b) == IF a > b THEN a - b ELSE b - a
Of(pos) == SelectSeq(M.recs, LAMBDA r : r.pos = pos)
Pos(row, col) == row * M.ncol + col + 1
\* features of a block: got[year][place][feature]
FeaturesRight ==
  \A y \in 1..Len(M.years) : \A i \in 1..(M.w * M.h) :
    LET row == ((M.block - 1) \div M.nx) * M.h + ((i - 1) \div M.w)  col == ((M.block - 1) % M.nx) * M.w + ((i - 1) % M.w)
        f == Features(Of(Pos(row, col)), July(M.years[y]), M.names, M.bands)
    IN  Len(M.got[y][i]) = Len(f) /\ \A k \in 1..Len(f) : Dist(M.got[y][i][k], f[k]) <= 2
QuotaRight == M.got = Quota(M.counts, M.total, M.least, M.most)
\* samples: got is a sequence of <<pixel, class, record>>; pixel 0: one without features
SamplesRight ==
  LET q == Quota(M.counts, M.total, M.least, M.most)  S == M.got  known == {i \in 1..Len(S) : S[i][1] > 0} IN
  /\ \A c \in 1..Len(M.counts) : Cardinality({i \in 1..Len(S) : S[i][2] = c}) = q[c]
  /\ \A i \in known : M.label[S[i][1]] = S[i][2]
  /\ Cardinality({S[i][1] : i \in known}) = Cardinality(known)
  /\ \A i \in 1..Len(S) : S[i][2] \in 1..Len(M.counts)
  /\ \A i \in known : S[i][3] = 0 \/ Cover(Of(S[i][1]), July(M.year)) = S[i][3]
\* classified maps: got[year][pixel]
MapsRight ==
  \A y \in 1..Len(M.years) : /\ Len(M.got[y]) = M.ncol * M.nrow
    /\ \A p \in 1..(M.ncol * M.nrow) : M.got[y][p] = ClassOf(Features(Of(p), July(M.years[y]), M.names, M.bands))
\* a block of given features: got[place]
BlockRight == \A i \in 1..Len(M.rows) : M.got[i] = ClassOf(M.rows[i])
Right == CASE M.kind = "features" -> FeaturesRight
           [] M.kind = "quota" -> QuotaRight
           [] M.kind = "samples" -> SamplesRight
           [] M.kind = "maps" -> MapsRight
           [] M.kind = "block" -> BlockRight
Init == t = 1
Next == /\ t <= Len(Cases)
        /\ IF Right THEN TRUE ELSE PrintT(<<"WRONG", t, M.kind>>)
        /\ t' = t + 1
Seen == t = Len(Cases) + 1 => PrintT(<<"SEEN", Len(Cases)>>)
=============================================================================
