SPECIFICATION Spec
INVARIANTS OneProcess OwnProcess InOrder Callbacks SameCall SameResult Aligned AtEnd NoDeadlock Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 NR = 2
 Depth = 4
 Emitting = FALSE
