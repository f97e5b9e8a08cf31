CONSTANTS MAXP = 4 MAXC = 4
SPECIFICATION Spec
INVARIANTS Counts NoGaps Total
CHECK_DEADLOCK FALSE
