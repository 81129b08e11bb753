SPECIFICATION Spec
INVARIANTS EveryBatchOnce SameDraws Published Undisturbed FreshData Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 NR = 2
 Lens = {0, 2}
 Depth = 4
 Emitting = FALSE
