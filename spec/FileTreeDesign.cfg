SPECIFICATION Spec
INVARIANTS Shape Failed Effect Holds
CHECK_DEADLOCK FALSE
CONSTANTS
 Names = {"a", "b"}
 Deep = 2
 Depth = 1
 Solid = FALSE
 Emitting = FALSE
