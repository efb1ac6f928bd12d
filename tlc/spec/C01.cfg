CONSTANT Conforms <- ConformsC01
INIT Init
NEXT Next
INVARIANT Conformance
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
