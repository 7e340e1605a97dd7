SPECIFICATION Spec
CONSTANTS
  NNew = 6
  Conses = {1, 2, 3}
INVARIANT Same
CHECK_DEADLOCK FALSE
