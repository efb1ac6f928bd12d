CONSTANT Conforms <- ConformsC04
INIT Init
NEXT Next
INVARIANT Conformance
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
