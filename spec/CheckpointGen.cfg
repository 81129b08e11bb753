CONSTANTS
  NR = 2
  Depth = 4
  NSteps = 2
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
