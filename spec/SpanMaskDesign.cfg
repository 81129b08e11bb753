SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Rows = 2
  Den = 3
INVARIANTS Sound SomethingLeft NoPadding
CHECK_DEADLOCK FALSE
