SPECIFICATION Spec
CONSTANT Emitting = FALSE
CONSTANT Wide = FALSE
INVARIANT Frame
INVARIANT Nothing
INVARIANT Idem
INVARIANT SetWins
INVARIANT DelGone
INVARIANT Fresh
INVARIANT Emit
CHECK_DEADLOCK FALSE
