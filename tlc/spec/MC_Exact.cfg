CONSTANTS EW = 3
P = 3
INIT Init
NEXT Next
INVARIANTS RemOk HypotOk CbrtOk ScaleOk NextOk DecomposeOk MinMaxOk
CHECK_DEADLOCK FALSE
