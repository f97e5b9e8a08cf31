CONSTANTS N = 2 MAXC = 1
SPECIFICATION Spec
INVARIANTS Inverse Mirrored Swapped
CHECK_DEADLOCK FALSE
