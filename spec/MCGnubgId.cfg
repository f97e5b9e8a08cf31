CONSTANTS N = 2 TOTAL = 24 MAXC = 2
SPECIFICATION Spec
INVARIANTS RoundTrip Text
CHECK_DEADLOCK FALSE
