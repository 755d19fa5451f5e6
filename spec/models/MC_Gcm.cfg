SPECIFICATION Spec
CONSTANTS MaxMsgs = 2
 Plain = {"p", "q"}
 Wrap = 5
INVARIANTS InOrderOnly NonceUnique NoReplay Steps
CHECK_DEADLOCK FALSE
