SPECIFICATION Spec
CONSTANTS PP = 53
 QQ = 71
 EE = 11
 LEN = 3
INVARIANT Exactly
CHECK_DEADLOCK FALSE
