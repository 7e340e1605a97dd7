------------------------------ MODULE TileGen ------------------------------
(* The schedules of Tile that the real workers can be led through: a move takes one worker to the brink of its next   *)
(* change of the folder (past everything it looks at before), or through that change, or kills it, or starts the job  *)
(* again, or lets a worker that waits look once more in vain. Prints every edge of the resulting graph.               *)
EXTENDS TileMC, TLCExt
VARIABLE move
Looks(i) == i.op \in {"skipif", "wait", "read", "reador"}
RECURSIVE Run(_, _)
Run(r, p) ==
  IF p = Len(Prog[w][r]) + 1 THEN p ELSE
  LET i == Prog[w][r][p] IN
  CASE i.op = "skipif" -> Run(r, IF There(i.fs) THEN p + 1 + i.n ELSE p + 1)
    [] i.op = "wait" -> IF There(i.fs) THEN Run(r, p + 1) ELSE p
    [] i.op = "read" -> IF Good(i.fs) THEN Run(r, p + 1) ELSE Failed
    [] i.op = "reador" -> IF Good(i.fs) THEN Run(r, p + 1) ELSE IF There(i.alt) THEN Run(r, p + 1 + i.n) ELSE Failed
    [] OTHER -> p
GInit == Init /\ move = 0
Brink(r) == Running(r) /\ Looks(At(r)) /\ Run(r, pc[r]) # pc[r] /\ Goto(r, Run(r, pc[r])) /\ UNCHANGED <<w, kills, fs>> /\ move' = r * 10 + 1
Change(r) == Running(r) /\ ~Looks(At(r)) /\ Step(r) /\ move' = r * 10 + 2
Polls == IOEnv.T_POLL = "1"
InVain(r) == Running(r) /\ At(r).op = "wait" /\ ~There(At(r).fs) /\ UNCHANGED vars /\ move' = r * 10 + 5
GNext == \/ \E r \in Workers : Brink(r) \/ Change(r) \/ (Kill(r) /\ move' = r * 10 + 3)
         \/ \E v \in Ws : Restart(v) /\ move' = v * 10 + 4
         \/ Polls /\ \E r \in Workers : InVain(r)
Pos == <<w, pc, kills, fs>>
Edge == PrintT(<<"EDGE", TLCFP(Pos), TLCFP(Pos'), move'>>) /\ (move = 0 => PrintT(<<"ROOT", TLCFP(Pos), w>>))
GView == Pos
============================================================================
