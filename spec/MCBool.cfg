INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 2
  Shifts = {0, 5, 12}
INVARIANTS Pairs Sums Turned Again Unit
