SPECIFICATION Spec
INVARIANTS Tree Html1
CONSTANTS MaxLines = 5 Distinct = FALSE
CHECK_DEADLOCK FALSE
