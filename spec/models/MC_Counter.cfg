SPECIFICATION Spec
CONSTANTS Bits = 2
 Low = 3
INVARIANTS NoReuse Agree
CHECK_DEADLOCK FALSE
