SPECIFICATION Spec
CONSTANTS K = 6
 Steps = 2
INVARIANTS InverseRight Canonical Right
CHECK_DEADLOCK FALSE
