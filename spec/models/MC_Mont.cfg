SPECIFICATION Spec
CONSTANTS K = 4
 Steps = 1
INVARIANTS InverseRight Canonical Right
CHECK_DEADLOCK FALSE
