SPECIFICATION Spec
INVARIANTS Changed Connected SamePeriod Peaked Complete Closed Patches
CHECK_DEADLOCK FALSE
