SPECIFICATION Spec
INVARIANTS Right Shifted
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxSeqs = 3
 MaxLen = 3
 MaxPad = 2
