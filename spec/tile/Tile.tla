------------------------------- MODULE Tile -------------------------------
(* The tile pipeline: w workers turn the blocks of a tile into change maps, (with a seed map) yearly classifications, *)
(* object maps and reconstructed blocks, and talk to each other only through files of the result folder.              *)
(* A worker is a straight program of the instructions below over the files; any worker, or the whole job, can be      *)
(* killed between any two instructions, and the whole job is then started again, with any number of workers.          *)
EXTENDS TileFiles, TLC
CONSTANTS C,             \* the tile
          Ws,            \* the numbers of workers a job may be started with
          Kills,
          Complete,      \* TRUE: files that others wait for or may read appear only when complete
          Tolerant,      \* TRUE: a classification whose inputs were cleaned away meanwhile ends quietly
          DateRank(_)    \* the worker that assembles the change dates, given the number of workers
MaxW == CHOOSE w \in Ws : \A v \in Ws : v <= w
Workers == 1..MaxW

\* ---- programs
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
Ins(op, s, alt, n) == [op |-> op, fs |-> s, alt |-> alt, n |-> n]
Read(s) == <<Ins("read", s, {}, 0)>>
Wait(s) == <<Ins("wait", s, {}, 0)>>
Flag(f) == <<Ins("put", {f}, {}, 0)>>
Plain(f) == <<Ins("begin", {f}, {}, 0), Ins("put", {f}, {}, 0)>>
Shared(f) == IF Complete THEN Flag(f) ELSE Plain(f)
Unless(s, body) == <<Ins("skipif", s, {}, Len(body))>> \o body
Mine(w, r, last) == SelectSeq([i \in 1..last |-> i], LAMBDA x : ((x - 1) % w) + 1 = r)
Each(s, P(_)) == Cat([i \in 1..Len(s) |-> P(s[i])])
Cold(w, r) == Each(Mine(w, r, C.n), LAMBDA b : Unless({BFlag(b)},
    Plain(Rec(b)) \o (IF C.object THEN Plain(Cmd(b)) \o Plain(Cm(b)) ELSE <<>>) \o Flag(BFlag(b))))
MapsOf(w, r) == Unless(AllMaps(C),
    (IF r = 1 THEN Read({Cm(b) : b \in Blocks(C)}) \o Cat([k \in 1..C.m |-> Shared(Map(k))]) ELSE <<>>) \o
    (IF r = DateRank(w) THEN Read({Cmd(b) : b \in Blocks(C)}) \o Cat([k \in 1..C.m |-> Shared(DMap(k))]) ELSE <<>>) \o
    Wait(AllMaps(C)))
Step3(w, r) == Each(Mine(w, r, C.n), LAMBDA b :
    LET body == Cat([y \in 1..C.y |-> <<Ins("reador", {Feat(y, b)}, AllYears(C), 0)>> \o Shared(Cls(y, b))]) \o Flag(F3(b))
        \* where a tolerant worker goes on when the features were cleaned away
        jump(i) == IF body[i].op = "reador" /\ Tolerant THEN [body[i] EXCEPT !.n = Len(body) - i] ELSE body[i]
    IN  Wait({Rf}) \o Read({Rf}) \o [i \in 1..Len(body) |-> jump(i)])
Clean == [i \in 1..(2 * C.n + 2 * C.n * C.y) |-> Ins("del", {IF i <= C.n THEN F1(i) ELSE IF i <= 2 * C.n THEN F3(i - C.n)
            ELSE LET j == i - 2 * C.n - 1 IN IF j < C.n * C.y THEN Feat((j \div C.n) + 1, (j % C.n) + 1)
                                             ELSE Cls(((j - C.n * C.y) \div C.n) + 1, ((j - C.n * C.y) % C.n) + 1)}, {}, 0)]
Class(w, r) == IF C.y = 0 THEN <<>> ELSE
    Unless(AllYears(C),
      Unless(F1s(C), Each(Mine(w, r, C.n), LAMBDA b : Read({Rec(b)}) \o Cat([y \in 1..C.y |-> Shared(Feat(y, b))]) \o Flag(F1(b)))) \o
      (IF r = 1 THEN Wait(F1s(C)) \o Read(Feats(C)) \o Shared(Rf) ELSE <<>>) \o
      Step3(w, r) \o
      (IF r = 1 THEN Wait(F3s(C)) \o Cat([y \in 1..C.y |-> Read({Cls(y, b) : b \in Blocks(C)}) \o Shared(Year(y))]) \o Clean ELSE <<>>)) \o
    Wait(AllYears(C))
Objects(w, r) == Unless(OFlags(C),
    Each(Mine(w, r, C.m), LAMBDA k : Read(Inputs(C, Obia(k, 1))) \o Cat([b \in 1..C.n |-> Shared(Obia(k, b))]) \o Flag(OFlag(k))) \o Wait(OFlags(C)))
Rebuild(w, r) == Each(Mine(w, r, C.n), LAMBDA b : Read({Obia(k, b) : k \in Maps(C)}) \o Plain(Ob(b)))
Program(w, r) == Cold(w, r) \o (IF C.object THEN Wait(BFlags(C)) \o MapsOf(w, r) \o Class(w, r) \o Objects(w, r) \o Rebuild(w, r) ELSE <<>>)
Prog == [w \in Ws |-> [r \in 1..w |-> Program(w, r)]]     \* TLC evaluates this once

VARIABLES w, fs, pc, kills
vars == <<w, fs, pc, kills>>
End(r) == Len(Prog[w][r]) + 1
There(s) == \A f \in s : fs[f] # "absent"
Good(s) == \A f \in s : fs[f] = "good"
Dead == 0     Failed == 10000     Idle == 20000
Begin(v) == [r \in Workers |-> IF r <= v THEN 1 ELSE Idle]
Init == w \in Ws /\ fs = [f \in Files(C) |-> "absent"] /\ pc = Begin(w) /\ kills = 0
Goto(r, p) == pc' = [pc EXCEPT ![r] = p]
Running(r) == r <= w /\ pc[r] \notin {Dead, Failed, End(r)}
At(r) == Prog[w][r][pc[r]]
Step(r) ==
    /\ Running(r)
    /\ UNCHANGED <<w, kills>>
    /\ LET i == At(r) IN
       CASE i.op = "skipif" -> Goto(r, IF There(i.fs) THEN pc[r] + 1 + i.n ELSE pc[r] + 1) /\ fs' = fs
         [] i.op = "wait" -> There(i.fs) /\ Goto(r, pc[r] + 1) /\ fs' = fs
         [] i.op = "read" -> Goto(r, IF Good(i.fs) THEN pc[r] + 1 ELSE Failed) /\ fs' = fs
         [] i.op = "reador" -> Goto(r, IF Good(i.fs) THEN pc[r] + 1 ELSE IF Tolerant /\ ~There(i.fs) /\ There(i.alt) THEN pc[r] + 1 + i.n ELSE Failed) /\ fs' = fs
         [] i.op = "begin" -> Goto(r, pc[r] + 1) /\ fs' = [f \in DOMAIN fs |-> IF f \in i.fs THEN "partial" ELSE fs[f]]
         [] i.op = "put" -> Goto(r, pc[r] + 1) /\ fs' = [f \in DOMAIN fs |-> IF f \in i.fs THEN "good" ELSE fs[f]]
         [] i.op = "del" -> Goto(r, pc[r] + 1) /\ fs' = [f \in DOMAIN fs |-> IF f \in i.fs THEN "absent" ELSE fs[f]]
Kill(r) == kills < Kills /\ Running(r) /\ Goto(r, Dead) /\ kills' = kills + 1 /\ UNCHANGED <<w, fs>>
\* the operator ends what is left of a job that lost a worker and starts it again
Restart(v) == (\E r \in 1..w : pc[r] = Dead) /\ w' = v /\ pc' = Begin(v) /\ UNCHANGED <<fs, kills>>
Next == (\E r \in Workers : Step(r) \/ Kill(r)) \/ \E v \in Ws : Restart(v)
Spec == Init /\ [][Next]_vars /\ (\A r \in Workers : WF_vars(Step(r))) /\ WF_vars(\E v \in Ws : Restart(v))

Done == \A r \in 1..w : pc[r] = End(r)
NeverFails == \A r \in Workers : pc[r] # Failed
\* a flag is never up while what it vouches for is not there in full (cleaning away afterwards excepted)
FlagsTrue == \A f \in Files(C) : fs[f] # "absent" =>
    /\ \A g \in Vouched(C, f) : fs[g] = "good" \/ CleanedAway(C, g, {h \in Files(C) : fs[h] # "absent"})
    /\ f[1] \in SelfVouching => fs[f] = "good"
AllGood == Done => \A f \in Files(C) : f[1] \notin Temporary => fs[f] = "good"
Ends == <>Done
============================================================================
