SPECIFICATION Spec
INVARIANTS NoByteLost RoundTrip InRange Minimal Local Frames
PROPERTIES Ends
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxText = 4
  MaxToks = 2
  Longest = 3
