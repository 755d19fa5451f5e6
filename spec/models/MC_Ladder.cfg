INIT Init
NEXT Next
CONSTANTS Q = 31
 A = 5
 BITS = 5
INVARIANTS Right Agree
CHECK_DEADLOCK FALSE
