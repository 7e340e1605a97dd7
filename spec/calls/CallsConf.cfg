CONSTANTS
  Kinds <- CKinds
  Layouts <- CLayouts
  Places <- CPlaces
  Outcome <- COutcome
  Content <- CContent
INIT CInit
NEXT CNext
INVARIANTS Pure Untouched
POSTCONDITION Seen
CHECK_DEADLOCK FALSE
