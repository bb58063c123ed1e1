CONSTANTS
  N3 = 3
  N2 = 4
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
