CONSTANTS Side = 3
 Tall = 3
 Slice = 1
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS OrientLaws TriTriLaws
