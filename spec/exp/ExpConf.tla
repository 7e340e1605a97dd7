------------------------------ MODULE ExpConf ------------------------------
(* Judges the maps the real export made of recorded tiles. M.px[p]: the records of the tile's p-th pixel. *)
EXTENDS Exp, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.EXP_TRACE)
VARIABLE t
M == Cases[t]
Years == 1..(M.hi - M.lo + 1)
Pixels == 1..(M.ncol * M.nrow)
Want == [p \in Pixels |-> [y \in Years |-> IF M.px[p] = <<>> THEN None ELSE Cell(M.method, M.px[p], M.lo + y - 1)]]
Dates == LET w == Want IN \A y \in Years : Len(M.maps[y]) = M.ncol * M.nrow /\
           \A p \in Pixels : IF w[p][y] = None THEN M.maps[y][p] = None ELSE M.maps[y][p] # None /\ M.maps[y][p] % 1000 = w[p][y] % 1000
Kinds == LET w == Want IN \A y \in Years : \A p \in Pixels : (w[p][y] # None /\ M.maps[y][p] # None) => M.maps[y][p] \div 1000 = w[p][y] \div 1000
YearsOf == \A p \in Pixels : LET cells == [y \in Years |-> M.maps[y][p]] IN
             M.recent[p] = Extreme(cells, M.lo, TRUE) /\ M.first[p] = Extreme(cells, M.lo, FALSE)
Dist(a, b) == IF a > b THEN a - b ELSE b - a
CoefsOf == \A y \in Years : \A i \in 1..Len(M.bands) : \A j \in 1..Len(M.names) :
             /\ Len(M.coefs[y][i][j]) = M.ncol * M.nrow
             /\ \A p \in Pixels : Dist(M.coefs[y][i][j][p], IF M.px[p] = <<>> THEN None ELSE Coef(M.px[p], M.lo + y - 1, M.bands[i], M.names[j])) <= 2
Right == CASE M.kind = "dates" -> Dates [] M.kind = "kinds" -> Kinds [] M.kind = "years" -> YearsOf [] M.kind = "coefs" -> CoefsOf
Init == t = 1
Next == /\ t <= Len(Cases)
        /\ IF Right THEN TRUE ELSE PrintT(<<"WRONG", t, M.kind>>)
        /\ t' = t + 1
Seen == t = Len(Cases) + 1 => PrintT(<<"SEEN", Len(Cases)>>)
=============================================================================
