------------------------------- MODULE PrepMC -------------------------------
(* Processes of one preparation: the first makes the folders and then leaves the file of dates the others wait for;    *)
(* each stacks its share, image by image, block by block; an unreadable image costs nothing but itself.                *)
EXTENDS Prep, TLC
CONSTANTS MaxN, Images, Blocks
VARIABLES n, bad, ready, at, blk, out, done
vars == <<n, bad, ready, at, blk, out, done>>
Init == /\ n \in 1..MaxN /\ bad \in SUBSET (0..(Images - 1)) /\ ready = FALSE /\ out = {} /\ done = {}
        /\ at = [r \in 0..(MaxN - 1) |-> r] /\ blk = [r \in 0..(MaxN - 1) |-> 1]
Prepare == /\ ~ready /\ ready' = TRUE /\ UNCHANGED <<n, bad, at, blk, out, done>>
Step(r) == /\ r < n /\ r \notin done /\ ready
           /\ IF at[r] >= Images THEN /\ done' = done \cup {r} /\ UNCHANGED <<at, blk, out>>
              ELSE /\ done' = done
                   /\ IF at[r] \in bad \/ blk[r] > Blocks
                      THEN /\ at' = [at EXCEPT ![r] = @ + n] /\ blk' = [blk EXCEPT ![r] = 1] /\ out' = out
                      ELSE /\ out' = out \cup {<<at[r], blk[r]>>} /\ blk' = [blk EXCEPT ![r] = @ + 1] /\ at' = at
           /\ UNCHANGED <<n, bad, ready>>
Next == Prepare \/ \E r \in 0..(MaxN - 1) : Step(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Partition == \A k \in 0..(Images - 1) : Cardinality({r \in 0..(n - 1) : k \in Share(n, r, Images)}) = 1
Waits == out # {} => ready
AllDone == done = 0..(n - 1)
Complete == AllDone => out = ((0..(Images - 1)) \ bad) \X (1..Blocks)
Ends == <>AllDone
=============================================================================
