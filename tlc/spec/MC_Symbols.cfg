CONSTANT MaxSyms = 2
INIT Init
NEXT Next
INVARIANT NoLawBroken
CHECK_DEADLOCK FALSE
