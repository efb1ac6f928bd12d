CONSTANT Conforms <- ConformsC02
INIT Init
NEXT Next
INVARIANT Conformance
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
