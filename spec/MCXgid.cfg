CONSTANTS N = 2 MAXC = 1
SPECIFICATION Spec
INVARIANTS Inverse
CHECK_DEADLOCK FALSE
