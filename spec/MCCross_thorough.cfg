INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 2
  Shifts = {0, 5, 12, 17}
INVARIANTS Turned Shared Closed Reach Halved
