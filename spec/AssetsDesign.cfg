SPECIFICATION Spec
CONSTANT Emitting = FALSE
CONSTANT Small = TRUE
INVARIANT Local
INVARIANT Once
INVARIANT Bare
INVARIANT User
INVARIANT Own
INVARIANT Errs
INVARIANT Emit
CHECK_DEADLOCK FALSE
