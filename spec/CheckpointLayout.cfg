CONSTANTS
  MaxSize = 16
SPECIFICATION Spec
INVARIANTS OneWriter Positions
CHECK_DEADLOCK FALSE
