SPECIFICATION Spec
CONSTANT Gens = 2
CONSTANT Depth = 4
CONSTANT Seeds = {"0", "7", "4294967296"}
CONSTANT Kinds = {"int"}
CONSTANT Emitting = TRUE
PROPERTY NoLeak
INVARIANT Together
INVARIANT Emit
CHECK_DEADLOCK FALSE
