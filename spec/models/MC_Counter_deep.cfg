SPECIFICATION Spec
CONSTANTS Bits = 2
 Low = 4
INVARIANTS NoReuse Agree
CHECK_DEADLOCK FALSE
