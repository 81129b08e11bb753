SPECIFICATION Spec
CONSTANTS
    MaxLen = 5
    MaxChunk = 3
    MaxRows = 2
    MaxOps = 4
    Kind = "window"
    Size = 3
    Gen = FALSE
INVARIANTS Enough Ordered Small Emit
CHECK_DEADLOCK FALSE
