CONSTANT W = 4
CONSTANT H = 3
CONSTANT Lo = 3
CONSTANT Hi = 7
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
