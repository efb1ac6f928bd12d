CONSTANTS
  NumMax = 60
  Exps <- ExpsT
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
