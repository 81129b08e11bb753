SPECIFICATION Spec
CONSTANT MaxHeads = 4
CONSTANT MaxHalf = 8
INVARIANT TypeOK
INVARIANT Permutation
INVARIANT Heads
INVARIANT Pairs
INVARIANT RoundTrip
INVARIANT NotAnInvolution
INVARIANT OneToOne
CHECK_DEADLOCK FALSE
