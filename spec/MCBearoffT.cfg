CONSTANTS MAXP = 6 MAXC = 6
SPECIFICATION Spec
INVARIANTS Bijective EmptyFirst
CHECK_DEADLOCK FALSE
