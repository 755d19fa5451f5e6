SPECIFICATION Spec
CONSTANTS Blocks = {0, 1, 2, 3}
 MaxLen = 3
INVARIANTS Inverse LengthKept Confined Shows
CHECK_DEADLOCK FALSE
