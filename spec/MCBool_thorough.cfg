INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 2
  Shifts = {0, 3, 6, 12, 17}
INVARIANTS Pairs Sums Turned Again Unit
