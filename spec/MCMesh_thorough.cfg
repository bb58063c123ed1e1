INIT Init
NEXT Next
INVARIANT Sound Counts Inverse FlipBack
PROPERTY KeepsTopology
CONSTANT Depth = 3
CONSTANT MaxV = 8
CONSTANT Seeds = {1, 2, 3, 4, 5, 7}
CHECK_DEADLOCK FALSE
