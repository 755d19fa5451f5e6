INIT Init
NEXT Next
CONSTRAINT Progress
