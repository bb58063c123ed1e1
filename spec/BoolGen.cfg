CONSTANTS
  Most = 4
  Dims = {3}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
