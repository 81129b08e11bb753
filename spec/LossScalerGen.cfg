CONSTANTS
  Depth = 6
  Window = 2
  Min = 4
  Emitting = TRUE
SPECIFICATION Spec
INVARIANTS Floor Fewer Emit
PROPERTIES GrowsLate ShrinksOnBad
CHECK_DEADLOCK FALSE
