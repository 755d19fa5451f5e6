SPECIFICATION Spec
CONSTANTS WB = 2
 NW = 3
INVARIANTS NoOverflow Exact
CHECK_DEADLOCK FALSE
