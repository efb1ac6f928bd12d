CONSTANTS Threads = {0, 1}
          MaxSpurious = 3
          Values = {0, 1, 128, 255, 32767}
INIT Init
NEXT Next
INVARIANTS Linearizable Ended
CHECK_DEADLOCK FALSE
