CONSTANTS Page = 16
          Pushed = 4
          MaxSize = 300
          Pages = 24
INIT Init
NEXT Next
INVARIANTS TypeOK GuardHit Complete Sharp
CHECK_DEADLOCK FALSE
