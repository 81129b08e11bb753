SPECIFICATION Spec
INVARIANTS Right NoDeadlock
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 2
 Kinds = {"colgather", "collocal", "rowscatter", "rowlocal", "chain"}
 Vals = {0, 1}
 In = 2
 Out = 2
 Batch = 1
