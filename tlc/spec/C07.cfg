CONSTANT Conforms <- ConformsC07
INIT Init
NEXT Next
INVARIANT Conformance
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
CONSTANT BW = 8
