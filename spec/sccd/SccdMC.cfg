SPECIFICATION Spec
CONSTANTS
  NObs = 6
  Steps = {2, 7}
  Conses = {1, 2, 3}
  Modes = {0, 1, 11, 2, 12, 3, 4, 5}
  MaskMax = 1
  WithPins = TRUE
INVARIANTS Parts Follows Records Models Latest SnowPack Pins Ordered
PROPERTY Terminates
CHECK_DEADLOCK FALSE
