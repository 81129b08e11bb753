SPECIFICATION Spec
INVARIANTS Right AddsUp Emit
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS
 MaxDim = 6
 Sizes = {1, 2, 3, 4, 6}
 MaxMoves = 2
 Emitting = FALSE
