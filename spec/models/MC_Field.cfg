INIT Init
NEXT Next
CONSTANTS N = 6
 C = 3
INVARIANTS Fits Right
CHECK_DEADLOCK FALSE
