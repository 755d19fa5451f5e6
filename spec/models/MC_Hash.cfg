SPECIFICATION Spec
CONSTANTS B = 4
 L = 2
 MaxLen = 9
 Sym = {"x"}
INVARIANTS Refines BufferOK
CHECK_DEADLOCK FALSE
