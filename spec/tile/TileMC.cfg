SPECIFICATION Spec
CONSTANTS
 C <- cC
 Ws <- cWs
 Kills <- cK
 Complete <- cComplete
 Tolerant <- cTolerant
 DateRank <- cDateRank
INVARIANTS NeverFails FlagsTrue AllGood
PROPERTY Ends
CHECK_DEADLOCK FALSE
