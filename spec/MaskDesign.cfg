SPECIFICATION Spec
CONSTANTS
    MaxLen = 3
    MaxSeqs = 2
    MaxPad = 2
    Kinds = {"none", "causal", "window", "chunk"}
    Sizes = {1, 2}
INVARIANTS Right NeverNothing
CHECK_DEADLOCK FALSE
