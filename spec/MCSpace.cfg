CONSTANTS Side = 3
 Tall = 2
 Slice = 3
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS OrientLaws TriTriLaws
