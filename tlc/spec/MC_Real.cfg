CONSTANTS
  NumMax = 11
  Exps <- ExpsQ
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
