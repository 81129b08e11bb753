CONSTANTS
  Dp = 3
  Tp = 2
SPECIFICATION Spec
INVARIANTS Right Same NoHole
CHECK_DEADLOCK TRUE
