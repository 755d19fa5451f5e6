SPECIFICATION Spec
CONSTANTS PP = 11
 QQ = 19
 EE = 7
 LEN = 2
INVARIANT Exactly
CHECK_DEADLOCK FALSE
