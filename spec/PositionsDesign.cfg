SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  MaxSeqs = 3
  Pad = 2
INVARIANTS OwnPlace All
CHECK_DEADLOCK FALSE
