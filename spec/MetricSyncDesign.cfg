CONSTANTS
  Ranks = {1, 2, 3}
  Vals = {0, 2, 5}
  Depth = 4
SPECIFICATION Spec
INVARIANTS Agrees Commutes
CHECK_DEADLOCK FALSE
