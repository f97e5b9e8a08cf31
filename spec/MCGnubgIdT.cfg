CONSTANTS N = 3 TOTAL = 40 MAXC = 4
SPECIFICATION Spec
INVARIANTS RoundTrip Text
CHECK_DEADLOCK FALSE
