CONSTANT W = 3
CONSTANT H = 3
CONSTANT Lo = 3
CONSTANT Hi = 9
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
