INIT Init
NEXT Next
CONSTANTS Threads = {1, 2}
 Ops = {1, 2}
 Depth = 3
INVARIANT Alone
CHECK_DEADLOCK FALSE
