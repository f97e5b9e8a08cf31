SPECIFICATION Spec
INVARIANTS Whole Answers CallsKnown
CONSTANTS MaxSteps = 5
CHECK_DEADLOCK FALSE
