CONSTANTS N = 2 MAXC = 1
SPECIFICATION Spec
INVARIANTS RoundTrip Mirror Injective Metric
CHECK_DEADLOCK FALSE
