SPECIFICATION Spec
CONSTANT V = 3
CONSTANT Pad = 0
CONSTANT B = 2
CONSTANT MinLen = 3
CONSTANT MaxLen = 5
CONSTANT Ban = 0
INVARIANT Bounded
INVARIANT Apart
INVARIANT Proper
INVARIANT Falling
INVARIANT BestGoOn
INVARIANT Result
PROPERTY Finishes
CHECK_DEADLOCK FALSE
