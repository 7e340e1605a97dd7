SPECIFICATION Spec
CONSTANTS
  NObs = 8
  MaxBreaks = 3
  ConseN = 2
INVARIANTS WellFormed OnlyAsked LastOpen OthersClosed Consecutive Models
PROPERTY Terminates
CHECK_DEADLOCK FALSE
