CONSTANTS MaxWrites = 2
          MaxLost = 2
          Lattice = {0, 1, 2, 3, 4, 6, 7}
INIT Init
NEXT Next
INVARIANT Conformance
CHECK_DEADLOCK FALSE
