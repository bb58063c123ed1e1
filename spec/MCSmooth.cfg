CONSTANT Ring = 5
CONSTANT Spread = 1
CONSTANT Heights = {0, 1}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Tangential
INVARIANT Linear
INVARIANT FlatStays
INVARIANT AtRest
INVARIANT Shifted
INVARIANT KeepsFacing
INVARIANT Wider
INVARIANT Open
