CONSTANTS MaxWrites = 1
          MaxLost = 1
          Lattice = {0, 1, 4, 6, 7}
INIT Init
NEXT Next
INVARIANT Conformance
CHECK_DEADLOCK FALSE
