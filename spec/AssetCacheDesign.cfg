SPECIFICATION Spec
CONSTANT Vs = {"1", "2"}
CONSTANT Archive = TRUE
CONSTANT Depth = 4
INVARIANT Kept
CHECK_DEADLOCK FALSE
