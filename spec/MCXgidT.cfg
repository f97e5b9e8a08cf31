CONSTANTS N = 3 MAXC = 2
SPECIFICATION Spec
INVARIANTS Inverse
CHECK_DEADLOCK FALSE
