------------------------------ MODULE CallsConf ------------------------------
(* Replays a recorded history of calls: each must be a step of Calls. *)
EXTENDS Calls, Sequences, TLC, Json, IOUtils, Integers
T == ndJsonDeserialize(IOEnv.CALLS_TRACE)[1]
CKinds == 1..Len(T.outcome)
CLayouts == 1..5
CPlaces == 1..4
COutcome(k) == T.outcome[k]
CContent(k) == T.content[k]
VARIABLES l, ok
CInit == Init /\ l = 1 /\ ok = TRUE
E == T.events[l]
Fits == LET x == E.kind IN
  /\ last'.out = E.out
  /\ \A p \in {E.at[n] : n \in 1..Len(E.at)} : p \in last'.at
  /\ \A k \in {x} : args'[k] = E.content
CNext ==
  /\ l <= Len(T.events)
  /\ Call(E.kind, E.layout, E.place)
  /\ l' = l + 1
  /\ ok' = Fits
  /\ Fits \/ PrintT(<<"MISMATCH", l, last'.out = E.out, {E.at[n] : n \in 1..Len(E.at)} \subseteq last'.at, args'[E.kind] = E.content>>)
Seen == TLCGet("stats").diameter - 1 = Len(T.events) \/ PrintT(<<"SHORT", TLCGet("stats").diameter>>)
=============================================================================
