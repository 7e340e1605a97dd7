SPECIFICATION Spec
INVARIANT Verdict
CONSTRAINT Budget
POSTCONDITION Flush
CHECK_DEADLOCK FALSE
