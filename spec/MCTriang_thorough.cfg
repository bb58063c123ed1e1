CONSTANT W = 4
CONSTANT H = 3
CONSTANT N = 7
INIT Init
NEXT Next
INVARIANT Good
INVARIANT LocalIsGlobal
INVARIANT Tight
INVARIANT Progress
INVARIANT Count
CHECK_DEADLOCK FALSE
