CONSTANTS Page = 8
          Pushed = 2
          MaxSize = 60
          Pages = 12
INIT Init
NEXT Next
INVARIANTS TypeOK GuardHit Complete Sharp
CHECK_DEADLOCK FALSE
