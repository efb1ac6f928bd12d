CONSTANTS BW = 2 Size = 4
INIT Init
NEXT Next
CONSTRAINT Bound
INVARIANTS StepOk CmpOk LenOk
CHECK_DEADLOCK FALSE
