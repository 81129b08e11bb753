CONSTANTS
  N = 3
  Vals = {0, 1, 2}
  Depth = 2
SPECIFICATION Spec
INVARIANTS Agree SourceKept Perms
PROPERTY Unaffected
CHECK_DEADLOCK FALSE
