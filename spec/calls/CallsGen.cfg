CONSTANTS
  Kinds <- GKinds
  Layouts <- GLayouts
  Places <- GPlaces
  Outcome <- GOutcome
  Content <- GContent
INIT GInit
NEXT GNext
VIEW GView
ACTION_CONSTRAINT Edge
INVARIANTS Pure Untouched
CHECK_DEADLOCK FALSE
