CONSTANT P = 3
CONSTANT Num = 30
CONSTANT Den = 17
CONSTANT Exp = 8
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Stands
INVARIANT Settled
INVARIANT Kept
INVARIANT Sign
INVARIANT Nearby
INVARIANT Exact
INVARIANT All
INVARIANT Whole
