INIT Init
NEXT Next
INVARIANTS SmallRight BigRight
CHECK_DEADLOCK FALSE
