INIT Init
NEXT Next
CONSTANT LastYear = 2110
INVARIANT Closed
CHECK_DEADLOCK FALSE
