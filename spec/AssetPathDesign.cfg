SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b"}
  Deep = 2
  Links = 2
INVARIANTS Stable Plain Leaves SameWay
CHECK_DEADLOCK FALSE
