INIT Init
NEXT Next
INVARIANT Seen
CHECK_DEADLOCK FALSE
