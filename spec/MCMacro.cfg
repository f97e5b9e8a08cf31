SPECIFICATION Spec
INVARIANTS Whole Answers CallsKnown
CONSTANTS MaxSteps = 4
CHECK_DEADLOCK FALSE
