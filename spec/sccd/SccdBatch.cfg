SPECIFICATION Spec
CONSTANTS
  NNew = 4
  Conses = {1, 2, 3}
INVARIANT Same
CHECK_DEADLOCK FALSE
