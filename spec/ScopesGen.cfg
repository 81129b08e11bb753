CONSTANTS
  Threads = {1, 2}
  Depth = 3
  Gangs = {1, 2, 3}
  Types = {}
  Emitting = TRUE
SPECIFICATION Spec
INVARIANTS OnDevice Emit
PROPERTIES Restores Isolated
CHECK_DEADLOCK FALSE
