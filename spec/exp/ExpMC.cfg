SPECIFICATION Spec
CONSTANTS MaxN = 4
 MaxX = 3
 MaxY = 3
 W = 2
 H = 3
INVARIANTS Complete Once Placed Clean
PROPERTY Ends
CHECK_DEADLOCK FALSE
