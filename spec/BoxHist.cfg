CONSTANT MaxLen = 16
CONSTANT Side = 5
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
