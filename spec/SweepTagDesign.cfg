SPECIFICATION Spec
CONSTANT Emitting = FALSE
CONSTANT Size = 6
INVARIANT Injective
INVARIANT Escapes
INVARIANT Literal
INVARIANT Braces
INVARIANT Emit
CHECK_DEADLOCK FALSE
