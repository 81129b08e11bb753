CONSTANTS
  MaxSize = 16
SPECIFICATION Spec
INVARIANTS Partition Product Crossing Adjacent CoordinatorFirst
CHECK_DEADLOCK FALSE
