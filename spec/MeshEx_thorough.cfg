INIT Init
NEXT Next
CONSTANT Depth = 2
CONSTANT Seeds = {1, 2, 3, 4, 5, 6, 7}
CHECK_DEADLOCK FALSE
