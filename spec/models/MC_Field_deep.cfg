INIT Init
NEXT Next
CONSTANTS N = 9
 C = 5
INVARIANTS Fits Right
CHECK_DEADLOCK FALSE
