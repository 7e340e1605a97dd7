------------------------------ MODULE SccdBatch ------------------------------
(* S03 on the machine: from a monitoring pack, the same observations are fed in every possible split and then,
   from the same pack again, at once.  As long as no change is confirmed the two end in the same pack; the
   first change they confirm is the same.  Numeric answers depend on the observations alone.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS NNew, Conses
VARIABLES sid, obs, i, s, dense, prev, trained, phase, b, fit, R, km, ts, num, saved, changed, segs, pins, mode, queue, err,
          left,        \* sizes of the batches still to come
          whole,       \* TRUE in the run with everything at once
          result       \* what the split run ended in

Day0 == 723896
mDates(x) == [k \in DOMAIN x.ids |-> Day0 + 5 * x.ids[k]]
G(x, p) == x.ids[p]
mLoad(x) == x.k
mStep(x, k, o, nx) == Append(k, G(x, o))
mSkip(x, k, o, nx) == k
mOff(x, k, o) == 2 * G(x, o) + (IF G(x, o) \in x.extreme THEN 1 ELSE 0)      \* deviation: which observation, isolated extreme or not
mConfirm(x, rs) == {rs[1] \div 2 = x.breaks}     \* the observation whose window is the first to confirm a change
mKExtreme(r) == {r % 2 = 1}
mGate(x, r) == {r \div 2 \in x.gate}
M == INSTANCE Sccd WITH MinObs <- 20, StartMin <- 2, SnowMin <- 4, TailMax <- 3, QueueMax <- 40, YearQ <- 16, Delay <- 4, PinMin <- 2,
       Sids <- {}, Dates <- mDates, Rejected <- LAMBDA x : FALSE, ModeIn <- LAMBDA x : x.mode, IsSnow <- LAMBDA x : FALSE, Stored <- LAMBDA x : x.stored,
       RecsIn <- LAMBDA x : x.recs, Conse <- LAMBDA x : x.conse, LoadTs <- LAMBDA x : Day0, LoadNum <- LAMBDA x : x.num, LoadModel <- mLoad,
       LoadTail <- LAMBDA x : Day0, Pinpoint <- LAMBDA x : FALSE,
       Masks <- LAMBDA x, os, y : {{}}, Fit4 <- LAMBDA x, os : os, Stable <- LAMBDA x, m : {FALSE}, Off <- mOff, Confirm <- mConfirm, Extreme <- LAMBDA r : {FALSE},
       KInit <- LAMBDA x, os, nx : os, KSnow <- LAMBDA x, os : os, KStep <- mStep, KSkip <- mSkip, KOff <- mOff, KConfirm <- mConfirm, KExtreme <- mKExtreme,
       Gate <- mGate, Quiet <- mGate, Stronger <- LAMBDA x, a, c : {TRUE}

Start(c, n, br, ex, ga) == [ids |-> [k \in 1..(c + n) |-> k], stored |-> c, conse |-> c, mode |-> 1, recs |-> 0, num |-> 30, k |-> <<0>>,
                           breaks |-> br, extreme |-> ex, gate |-> ga]
RECURSIVE Splits(_)
Splits(n) == IF n = 0 THEN {<<>>} ELSE UNION {{<<k>> \o q : q \in Splits(n - k)} : k \in 1..n}
Fresh == /\ obs = <<>> /\ i = 1 /\ s = 1 /\ dense = 1 /\ prev = 1 /\ trained = FALSE /\ phase = "start" /\ b = 0 /\ fit = -1 /\ R = <<>>
         /\ km = -1 /\ ts = 0 /\ num = 0 /\ saved = M!NoModel /\ changed = FALSE /\ segs = <<>> /\ pins = <<>> /\ queue = <<>> /\ err = FALSE
Init == \E c \in Conses, q \in Splits(NNew) : \E br \in 0..(NNew + 1), ex \in SUBSET (1..(NNew + c)),
           ga \in {{}, 1..(NNew + c), {NNew + c}, {NNew + c - 1, NNew + c}} :
  /\ sid = Start(c, q[1], br, ex, ga) /\ left = Tail(q) /\ whole = FALSE /\ result = <<>> /\ mode = 1 /\ Fresh
Again(x) ==
  /\ sid' = x /\ mode' = x.mode
  /\ obs' = <<>> /\ i' = 1 /\ s' = 1 /\ dense' = 1 /\ prev' = 1 /\ trained' = FALSE /\ phase' = "start" /\ b' = 0 /\ fit' = -1 /\ R' = <<>>
  /\ km' = -1 /\ ts' = 0 /\ num' = 0 /\ saved' = M!NoModel /\ changed' = FALSE /\ segs' = <<>> /\ pins' = <<>> /\ queue' = <<>> /\ err' = FALSE
Newest == sid.ids[Len(sid.ids)]
Pack == [mode |-> mode, ts |-> saved.ts, num |-> saved.num, k |-> saved.k, tail |-> [p \in DOMAIN saved.tail |-> G(sid, saved.tail[p])],
         run |-> [p \in DOMAIN saved.run |-> saved.run[p]]]
First == IF segs = <<>> THEN <<>> ELSE <<segs[1].ts, segs[1].tb, segs[1].num, segs[1].fit, segs[1].mag>>
Continue ==    \* the next batch, on the pack the last one left
  /\ phase = "done" /\ ~whole /\ left # <<>> /\ segs = <<>>
  /\ Again([sid EXCEPT !.ids = Pack.tail \o [k \in 1..left[1] |-> Newest + k], !.num = saved.num, !.k = saved.k])
  /\ left' = Tail(left) /\ UNCHANGED <<whole, result>>
AtOnce ==      \* everything again
  /\ phase = "done" /\ ~whole /\ (left = <<>> \/ segs # <<>>)
  /\ result' = <<First, Pack>> /\ whole' = TRUE /\ left' = <<>>
  /\ Again(Start(sid.conse, NNew, sid.breaks, sid.extreme, sid.gate))
Next == (M!Next /\ UNCHANGED <<left, whole, result>>) \/ Continue \/ AtOnce
Spec == Init /\ [][Next]_<<M!vars, left, whole, result>>
Same == whole /\ phase = "done" => First = result[1] /\ (segs = <<>> => Pack = result[2])
=============================================================================
