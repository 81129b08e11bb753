CONSTANTS
  Warmups = {0, 1, 3}
  Cycles = {0, 1, 2, 3}
  Growths = {11, 32, 21, 12, 34}
  Totals = {0, 1, 2, 5}
  Depth = 12
  Restores = 2
  Every = 1
  Emitting = FALSE
SPECIFICATION Spec
INVARIANTS Agree Weight Root Meets Ends Emit
PROPERTIES Falls Grows
CHECK_DEADLOCK FALSE
