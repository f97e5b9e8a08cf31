CONSTANTS N = 3 MAXC = 2
SPECIFICATION Spec
INVARIANTS Inverse Mirrored Swapped
CHECK_DEADLOCK FALSE
