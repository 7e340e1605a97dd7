------------------------------- MODULE ExpMC -------------------------------
(* Any number of processes export the blocks of a tile: each writes one temporary map per block of its own and then   *)
(* waits; when all are there, the first one puts the maps side by side, cuts the strip into rows of blocks and        *)
(* removes the temporary maps.                                                                                        *)
EXTENDS Exp, TLC
CONSTANTS MaxN, MaxX, MaxY, W, H
VARIABLES n, nx, ny, pc, k, tmp, map
vars == <<n, nx, ny, pc, k, tmp, map>>
Blocks == 1..(nx * ny)
Own(r) == {b \in Blocks : (b - 1) % n = r}
Init == /\ n \in 1..MaxN /\ nx \in 1..MaxX /\ ny \in 1..MaxY
        /\ pc = [r \in 0..(n - 1) |-> IF r = 0 THEN "lead" ELSE "wait"] /\ k = [r \in 0..(n - 1) |-> 0] /\ tmp = {} /\ map = <<>>
Lead == /\ pc[0] = "lead" /\ pc' = [r \in 0..(n - 1) |-> "work"] /\ UNCHANGED <<n, nx, ny, k, tmp, map>>      \* layout broadcast
Work(r) == LET b == n * k[r] + r + 1 IN
  /\ pc[r] = "work"
  /\ IF b \in Blocks THEN /\ tmp' = tmp \cup {b} /\ k' = [k EXCEPT ![r] = @ + 1] /\ pc' = pc
                     ELSE /\ pc' = [pc EXCEPT ![r] = "barrier"] /\ UNCHANGED <<tmp, k>>
  /\ UNCHANGED <<n, nx, ny, map>>
Pass == /\ \A r \in DOMAIN pc : pc[r] = "barrier"
        /\ pc' = [r \in DOMAIN pc |-> IF r = 0 THEN "assemble" ELSE "done"] /\ UNCHANGED <<n, nx, ny, k, tmp, map>>
\* strip: pixel (row, column of the strip) -> <<block, place in block>>; cut into ny pieces and stacked
Strip(row, g) == <<(g \div W) + 1, row * W + (g % W)>>
Stacked(row, col) == Strip(row % H, (row \div H) * nx * W + col)
Assemble == /\ pc[0] = "assemble"
            /\ map' = [p \in 1..(nx * ny * W * H) |-> Stacked((p - 1) \div (nx * W), (p - 1) % (nx * W))]
            /\ tmp' = {} /\ pc' = [pc EXCEPT ![0] = "done"] /\ UNCHANGED <<n, nx, ny, k>>
Next == Lead \/ Pass \/ Assemble \/ \E r \in DOMAIN pc : Work(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Complete == pc[0] = "assemble" => tmp = Blocks
Once == \A b \in Blocks : Cardinality({r \in DOMAIN pc : b \in Own(r)}) = 1
Placed == map # <<>> => \A b \in Blocks, q \in 0..(W * H - 1) : map[PlaceOf(b, q, nx, W, H)] = <<b, q>>
Clean == (\A r \in DOMAIN pc : pc[r] = "done") => tmp = {} /\ map # <<>>
Ends == <>(\A r \in DOMAIN pc : pc[r] = "done")
=============================================================================
