CONSTANTS N = 24 HOME = 6 DEPTH = 7
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
