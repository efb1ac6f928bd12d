CONSTANTS EW = 3
P = 2
WithFma = TRUE
INIT Init
NEXT Next
INVARIANTS FmaOk
CHECK_DEADLOCK FALSE
