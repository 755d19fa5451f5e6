SPECIFICATION Spec
CONSTANTS WB = 2
 NW = 2
INVARIANTS NoOverflow Exact
CHECK_DEADLOCK FALSE
