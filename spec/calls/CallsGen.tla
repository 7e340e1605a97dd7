------------------------------ MODULE CallsGen ------------------------------
(* Enumerates every pair of consecutive calls: the layout and the position of a call are functions of the
   pair, so that each layout and position follows each other one.                                        *)
EXTENDS Calls, TLC, Integers, IOUtils
NK == atoi(IOEnv.CALLS_KINDS)
GKinds == 1..NK
GLayouts == 1..5
GPlaces == 1..4
GOutcome(k) == k
GContent(k) == k
VARIABLE key
L(a, b) == 1 + ((a + 2 * b) % 5)
P(a, b) == 1 + ((a \div 2 + b) % 4)
GInit == Init /\ key = 0
GNext == \E k \in Kinds : Call(k, L(last.kind, k), P(last.kind, k)) /\ key' = k
GView == key
Edge == PrintT(<<"EDGE", key, key', last'.layout, last'.place>>)
=============================================================================
