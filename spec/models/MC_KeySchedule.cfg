SPECIFICATION Spec
CONSTANTS MaxSteps = 3
INVARIANTS Separated KeySeparation
CHECK_DEADLOCK FALSE
