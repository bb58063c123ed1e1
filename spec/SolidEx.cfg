CONSTANTS
  NX = 2
  NY = 2
  NZ = 2
  MX = 3
  MY = 3
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Report
