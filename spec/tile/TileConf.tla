------------------------------ MODULE TileConf ------------------------------
(* Judges recorded histories of real tile runs (what every product on disk became, when, and by whom; who ended how)  *)
(* by the rules of TileFiles. Files of unexpected content are recorded as "bad"; "none": the sequential computation   *)
(* has no such file.                                                                                                  *)
EXTENDS TileFiles, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TILE_TRACE)
VARIABLES t, l, fs, killed, by
vars == <<t, l, fs, killed, by>>
T == Runs[t]
C == T.tile
None == {T.none[i] : i \in 1..Len(T.none)}
At(f) == IF f \in DOMAIN fs THEN fs[f] ELSE "absent"
There == {f \in DOMAIN fs : fs[f] # "absent"}
Fine(f) == At(f) = "good" \/ f \in None \/ CleanedAway(C, f, There)
E == T.events[l]
\* made block by block, by the one worker that has the block
Owned == {"rec", "cmb", "dateb", "bflag", "ob"}
Empty == [f \in {} |-> "absent"]
\* what is wrong with event e: "" if nothing
Wrong(e) ==
  CASE e.kind = "put" ->
         LET f == e.file IN
         (CASE f = <<"report">> -> ""
           [] f[1] \in Owned /\ f \in DOMAIN by /\ by[f] # e.rank -> "made by two workers"
           [] e.state = "bad" -> "content"
           [] e.state = "partial" -> IF f[1] \in SelfVouching \/ Guards(C, f) \cap There # {} THEN "unfinished but announced" ELSE ""
           [] e.state = "good" -> IF \A g \in Inputs(C, f) : Fine(g) THEN "" ELSE "before its inputs"
           [] e.state = "absent" -> IF CleanedAway(C, f, There) THEN "" ELSE "removed")
    [] e.kind = "exit" -> IF e.code = 0 THEN "" ELSE "a worker failed"
    [] e.kind = "stuck" -> IF killed THEN "" ELSE "nobody goes on"
    [] e.kind = "end" -> IF killed \/ \A h \in Files(C) : h[1] \in Temporary \/ Fine(h) THEN "" ELSE "products missing"
    [] OTHER -> ""
Init == t = 1 /\ l = 1 /\ fs = Empty /\ killed = FALSE /\ by = Empty
Next ==
  /\ t <= Len(Runs)
  /\ LET e == E  x == Wrong(e) IN
     /\ IF x = "" THEN TRUE ELSE PrintT(<<"WRONG", t, l, x>>)
     /\ IF x # "" \/ l = Len(T.events)                 \* one finding per run
        THEN t' = t + 1 /\ l' = 1 /\ fs' = Empty /\ killed' = FALSE /\ by' = Empty
        ELSE /\ t' = t /\ l' = l + 1
             /\ fs' = IF e.kind = "put" THEN [h \in DOMAIN fs \cup {e.file} |-> IF h = e.file THEN e.state ELSE fs[h]] ELSE fs
             /\ by' = IF e.kind = "start" THEN Empty
                      ELSE IF e.kind = "put" THEN [h \in DOMAIN by \cup {e.file} |-> IF h = e.file THEN e.rank ELSE by[h]] ELSE by
             /\ killed' = IF e.kind = "start" THEN FALSE ELSE killed \/ e.kind = "kill"
Seen == t = Len(Runs) + 1 => PrintT(<<"SEEN", Len(Runs)>>)
=============================================================================
