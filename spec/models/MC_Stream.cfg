SPECIFICATION Spec
CONSTANTS B = 3
 Base = 3
 Digits = 3
 MaxCall = 7
 MaxBlocks = 9
INVARIANTS Same Abstraction
CHECK_DEADLOCK FALSE
