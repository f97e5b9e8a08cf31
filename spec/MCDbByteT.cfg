CONSTANTS N = 2 MAXC = 3
SPECIFICATION Spec
INVARIANTS RoundTrip Mirror Injective Metric
CHECK_DEADLOCK FALSE
