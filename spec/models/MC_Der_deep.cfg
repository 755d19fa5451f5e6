SPECIFICATION Spec
CONSTANTS MaxLen = 5
 Alphabet = {0, 1, 2, 3, 48, 128, 129, 130, 131, 255}
INVARIANTS InBounds Exact
PROPERTY Ends
CHECK_DEADLOCK FALSE
