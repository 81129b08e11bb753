CONSTANTS
  Slots = 5
  Depth = 2
  Most = 3
SPECIFICATION Spec
INVARIANTS Ties Grads OneDevice Content Others Again
CHECK_DEADLOCK FALSE
