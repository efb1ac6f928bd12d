CONSTANTS Threads = {0, 1}
          MaxSpurious = 1
          Values = {1, 128}
INIT Init
NEXT Next
INVARIANTS Linearizable Ended
CHECK_DEADLOCK FALSE
