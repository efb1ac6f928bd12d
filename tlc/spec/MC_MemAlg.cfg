CONSTANTS BW = 5 Size = 14 W = 4 Threshold = 8
SPECIFICATION Spec
INVARIANTS Correct InBounds NoSkip NotStuck
CHECK_DEADLOCK FALSE
