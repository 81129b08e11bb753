SPECIFICATION Spec
CONSTANT Ranks = 2
CONSTANT Micro = 2
CONSTANT Examples = 3
CONSTANT NoSync = TRUE
CONSTANT Counted = TRUE
CONSTANT Emitting = FALSE
INVARIANT Promised
INVARIANT Exact
CHECK_DEADLOCK FALSE
