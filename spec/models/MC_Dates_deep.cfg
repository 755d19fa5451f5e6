INIT Init
NEXT Next
CONSTANT LastYear = 4010
INVARIANT Closed
CHECK_DEADLOCK FALSE
