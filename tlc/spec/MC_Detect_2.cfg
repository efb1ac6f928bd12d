CONSTANTS Threads = {0, 1, 2}
          CallsPerThread = 1
INIT Init
NEXT Next
INVARIANTS Sound Ends
CHECK_DEADLOCK FALSE
