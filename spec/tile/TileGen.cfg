INIT GInit
NEXT GNext
VIEW GView
ACTION_CONSTRAINT Edge
CONSTANTS
 C <- cC
 Ws <- cWs
 Kills <- cK
 Complete <- cComplete
 Tolerant <- cTolerant
 DateRank <- cDateRank
INVARIANTS NeverFails FlagsTrue AllGood
CHECK_DEADLOCK FALSE
