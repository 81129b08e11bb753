SPECIFICATION Spec
CONSTANT MaxRows = 2
CONSTANT MaxLen_ = 3
CONSTANT V = 2
CONSTANT Emitting = FALSE
INVARIANT ByMask
INVARIANT ByPad
INVARIANT ByLayout
INVARIANT Complete
INVARIANT Additive
INVARIANT Even
INVARIANT Emit
CHECK_DEADLOCK FALSE
