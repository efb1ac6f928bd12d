CONSTANTS EW = 3
P = 3
INIT Init
NEXT Next
INVARIANTS StepsOk AcceptOk SpreadOk NaNsOk
CHECK_DEADLOCK FALSE
