INIT Init
NEXT Next
INVARIANTS WeldBack Keeps
CHECK_DEADLOCK FALSE
