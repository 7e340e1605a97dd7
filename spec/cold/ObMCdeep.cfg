SPECIFICATION Spec
CONSTANTS
  NObs = 9
  MaxBreaks = 4
  ConseN = 2
INVARIANTS WellFormed OnlyAsked LastOpen OthersClosed Consecutive Models
PROPERTY Terminates
CHECK_DEADLOCK FALSE
