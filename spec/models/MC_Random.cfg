SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 PerThread = 2
 Tests = 3
INVARIANTS Once Whole InOrder NoGap
CHECK_DEADLOCK FALSE
