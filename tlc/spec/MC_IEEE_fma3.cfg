CONSTANTS EW = 3
P = 3
WithFma = TRUE
INIT Init
NEXT Next
INVARIANTS FmaOk
CHECK_DEADLOCK FALSE
