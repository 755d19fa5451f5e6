INIT Init
NEXT Next
CONSTANTS Q = 103
 A = 5
 BITS = 7
INVARIANTS Right Agree
CHECK_DEADLOCK FALSE
