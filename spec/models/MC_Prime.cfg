SPECIFICATION Spec
CONSTANTS Lo = 9
 Hi = 3001
 Bases <- B4
INVARIANTS Right Decomposed
CHECK_DEADLOCK FALSE
