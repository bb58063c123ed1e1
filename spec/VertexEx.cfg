CONSTANT MaxLen = 3
CONSTANT Random = FALSE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
