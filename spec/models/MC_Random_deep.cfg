SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3, 4}
 PerThread = 3
 Tests = 5
INVARIANTS Once Whole InOrder NoGap
PROPERTY Done
CHECK_DEADLOCK FALSE
