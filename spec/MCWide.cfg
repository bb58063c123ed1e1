INIT Init
NEXT Next
INVARIANT Fits Ring Small
CHECK_DEADLOCK FALSE
