CONSTANTS
  MaxN = 3
  MaxLen = 4
  MaxK = 3
  Depth = 6
  Emitting = FALSE
  Ops = {}
SPECIFICATION Spec
INVARIANTS LockStep TogetherEnd InOrder Complete Emit
CHECK_DEADLOCK FALSE
