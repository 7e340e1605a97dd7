CONSTANTS
 Layouts <- cLayouts
 Sampled <- cSampled
INIT Init
NEXT Next
INVARIANTS There Inverse Show
CHECK_DEADLOCK FALSE
