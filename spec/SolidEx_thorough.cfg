CONSTANTS
  NX = 2
  NY = 2
  NZ = 3
  MX = 3
  MY = 4
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Report
