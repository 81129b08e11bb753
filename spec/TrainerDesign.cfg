CONSTANTS
  MaxLen = 3
  MaxSteps = {0, 3}
  MaxEpochs = {0, 2}
  Every = {0, 1, 2}
  MaxLives = 2
  Bad = {0, 2}
SPECIFICATION Spec
INVARIANTS SamePath AllDone LastSaved
CHECK_DEADLOCK FALSE
