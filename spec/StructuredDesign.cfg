SPECIFICATION Spec
CONSTANT Emitting = FALSE
CONSTANT Wide = FALSE
CONSTANT Thin = 1
INVARIANT Typed
INVARIANT Stays
INVARIANT Keeps
INVARIANT Back
INVARIANT Only
INVARIANT Total
INVARIANT Emit
CHECK_DEADLOCK FALSE
