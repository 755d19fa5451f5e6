INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
