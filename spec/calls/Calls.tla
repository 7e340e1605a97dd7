-------------------------------- MODULE Calls --------------------------------
(* What a process sees that calls pixel-level functions one after another: a call's outcome depends on the
   call alone (function, series, parameters), never on earlier calls, on the integer type and memory layout
   of its arguments or on the heap's contents; it changes none of its arguments; and every record and pack of
   the result carries the position the caller gave.                                                       *)
EXTENDS Naturals

CONSTANTS
  Kinds,        \* the calls: a function with a series and parameters
  Layouts,      \* integer types and memory layouts of the arguments
  Places,       \* positions
  Outcome(_),   \* the outcome of a call, but for the position
  Content(_)    \* the contents of the arguments of a call

VARIABLES
  args,         \* contents of every call's arguments, as the caller holds them
  last          \* the last call and what came of it
vars == <<args, last>>

None == [kind |-> 0, layout |-> 0, place |-> 0, out |-> 0, at |-> {}]
Init == args = [k \in Kinds |-> Content(k)] /\ last = None

Call(k, l, p) ==
  /\ last' = [kind |-> k, layout |-> l, place |-> p, out |-> Outcome(k), at |-> {p}]
  /\ UNCHANGED args

Next == \E k \in Kinds, l \in Layouts, p \in Places : Call(k, l, p)

Pure == last # None => last.out = Outcome(last.kind) /\ last.at = {last.place}
Untouched == args = [k \in Kinds |-> Content(k)]
=============================================================================
