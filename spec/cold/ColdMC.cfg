SPECIFICATION Spec
CONSTANTS
  NObs = 8
  Steps = {2, 7}
  ConseN = 2
  GapN = 5
  MaskMax = 1
INVARIANTS WellFormed Breaks OpenEnd Kinds Models Ordered Window
PROPERTY Terminates
CHECK_DEADLOCK FALSE
