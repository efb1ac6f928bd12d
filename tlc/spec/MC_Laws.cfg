CONSTANTS EW = 4
P = 4
INIT Init
NEXT Next
INVARIANTS NoLawBroken
CHECK_DEADLOCK FALSE
