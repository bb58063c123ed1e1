INIT Init
NEXT Next
INVARIANT Algebra Tree Rebuild
CONSTANT Side = 2
CONSTANT Depth = 2
CONSTANT Wide = TRUE
CHECK_DEADLOCK FALSE
