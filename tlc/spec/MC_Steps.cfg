CONSTANTS EW = 2
P = 3
INIT Init
NEXT Next
INVARIANTS StepsOk AcceptOk SpreadOk NaNsOk
CHECK_DEADLOCK FALSE
