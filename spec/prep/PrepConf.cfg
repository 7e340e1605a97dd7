INIT Init
NEXT Next
INVARIANT Seen_
CHECK_DEADLOCK FALSE
