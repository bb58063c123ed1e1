CONSTANT MaxLen = 14
CONSTANT Random = TRUE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
