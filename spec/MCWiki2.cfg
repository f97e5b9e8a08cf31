SPECIFICATION Spec
INVARIANTS Tree Html1
CONSTANTS MaxLines = 4 Distinct = FALSE
CHECK_DEADLOCK FALSE
