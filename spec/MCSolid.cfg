CONSTANTS
  NX = 2
  NY = 2
  NZ = 2
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Laws
