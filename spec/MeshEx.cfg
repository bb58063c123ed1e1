INIT Init
NEXT Next
CONSTANT Depth = 2
CONSTANT Seeds = {1, 3, 4, 6}
CHECK_DEADLOCK FALSE
