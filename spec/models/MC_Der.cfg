SPECIFICATION Spec
CONSTANTS MaxLen = 4
 Alphabet = {0, 1, 2, 3, 48, 127, 128, 129, 130, 255}
INVARIANTS InBounds Exact
CHECK_DEADLOCK FALSE
