CONSTANT P = 3
CONSTANT Num = 9
CONSTANT Den = 6
CONSTANT Exp = 5
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Stands
INVARIANT Settled
INVARIANT Kept
INVARIANT Sign
INVARIANT Nearby
INVARIANT Exact
INVARIANT All
INVARIANT Whole
