CONSTANTS
  Steps = {1, 2, 3, 4, 5, 6}
  Scores = {0, 1, 2}
  KLast = 2
  KBest = 2
  KEvery = 3
SPECIFICATION Spec
INVARIANTS NothingWantedIsGone NothingElseIsKept ScoresFollow
CHECK_DEADLOCK FALSE
