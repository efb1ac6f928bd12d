CONSTANT Conforms <- ConformsC30
INIT Init
NEXT Next
INVARIANT Conformance
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
CONSTANT BW = 8
