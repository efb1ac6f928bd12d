CONSTANTS Threads = {0, 1}
          CallsPerThread = 2
INIT Init
NEXT Next
INVARIANTS Sound Ends
CHECK_DEADLOCK FALSE
