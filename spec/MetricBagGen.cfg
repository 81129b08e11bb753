CONSTANTS
  NameSet = {"a", "b"}
  Kinds = {"sum", "mean"}
  Vals = {3}
  Depth = 4
  Emitting = TRUE
SPECIFICATION Spec
INVARIANTS NeverNested Emit
PROPERTIES RollsBack Keeps SavedStay
CHECK_DEADLOCK FALSE
