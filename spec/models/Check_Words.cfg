INIT Init
NEXT Next
INVARIANTS Logic Shifts Octets Wide
CHECK_DEADLOCK FALSE
