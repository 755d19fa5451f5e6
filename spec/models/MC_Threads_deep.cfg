INIT Init
NEXT Next
CONSTANTS Threads = {1, 2, 3}
 Ops = {1, 2}
 Depth = 2
INVARIANT Alone
CHECK_DEADLOCK FALSE
