INIT Init
NEXT Next
INVARIANT StartFree NoNet Twins Ends Inside
PROPERTY SplitsAdd
CONSTANT Depth = 3
CONSTANT MaxV = 8
CONSTANT Seeds = {1, 2, 3, 4, 5, 7}
CHECK_DEADLOCK FALSE
