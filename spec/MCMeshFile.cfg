INIT Init
NEXT Next
INVARIANT RoundTrip
INVARIANT Cut
CHECK_DEADLOCK FALSE
