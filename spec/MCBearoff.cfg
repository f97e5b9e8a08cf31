CONSTANTS MAXP = 4 MAXC = 5
SPECIFICATION Spec
INVARIANTS Bijective EmptyFirst
CHECK_DEADLOCK FALSE
