CONSTANT Depth = 3
CONSTANT Coords = {0, 8, 9, 10, 17}
INIT Init
NEXT Next
INVARIANTS Distinct Idempotent FarApart Equivalence
CHECK_DEADLOCK FALSE
