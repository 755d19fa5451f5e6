INIT Init
NEXT Next
CONSTRAINT Progress
CONSTANT Regs = {1, 2, 3, 4}
