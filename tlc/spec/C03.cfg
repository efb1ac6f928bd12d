CONSTANT Conforms <- ConformsC03
INIT Init
NEXT Next
INVARIANT Conformance
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
