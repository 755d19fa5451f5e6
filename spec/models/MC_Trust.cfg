SPECIFICATION Spec
CONSTANTS MaxLen = 3
 Rich = FALSE
INVARIANTS Sound Complete StoreSafe
CHECK_DEADLOCK FALSE
