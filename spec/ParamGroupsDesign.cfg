CONSTANTS
  Chars = {"a", "b"}
  Longest = 2
  Elements = {"a", "?", "*", "$"}
  Most = 2
  Params = 2
SPECIFICATION Spec
INVARIANTS Parts Kept Sets Everything
PROPERTIES Later
CHECK_DEADLOCK FALSE
