CONSTANTS MAXP = 5 MAXC = 5
SPECIFICATION Spec
INVARIANTS Counts NoGaps Total
CHECK_DEADLOCK FALSE
