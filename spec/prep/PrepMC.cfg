SPECIFICATION Spec
CONSTANTS MaxN = 3
 Images = 4
 Blocks = 2
INVARIANTS Partition Waits Complete
PROPERTY Ends
CHECK_DEADLOCK FALSE
