CONSTANT Slice = 16
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
