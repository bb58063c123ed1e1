CONSTANT Lo = 1
CONSTANT Hi = 1
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Perpendicular
INVARIANT Lagrange
INVARIANT Triple
INVARIANT Turned
INVARIANT Swapped
INVARIANT Product
INVARIANT Neutral
INVARIANT Inverse
INVARIANT Acts
INVARIANT Laplace
INVARIANT PlaneThrough
INVARIANT OrderTotal
