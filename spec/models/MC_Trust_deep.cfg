SPECIFICATION Spec
CONSTANTS MaxLen = 3
 Rich = TRUE
INVARIANTS Sound Complete StoreSafe
PROPERTY Terminates
CHECK_DEADLOCK FALSE
