SPECIFICATION Spec
CONSTANT V = 3
CONSTANT Depth = 5
CONSTANT N = 2
CONSTANT Maxb = 3
INVARIANT Exactly
CHECK_DEADLOCK FALSE
