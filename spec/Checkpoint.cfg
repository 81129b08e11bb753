CONSTANTS
  NRanks = 2
  MaxStep = 2
  MaxVer = 3
  MaxCrash = 1
  AtomicDelete = TRUE
SPECIFICATION Spec
INVARIANTS ListedComplete OneSave
PROPERTIES OthersUntouched Refines
CHECK_DEADLOCK FALSE
