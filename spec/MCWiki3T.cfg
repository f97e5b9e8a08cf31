SPECIFICATION Spec
INVARIANTS Tree WordsKept
CONSTANTS MaxLines = 5 Distinct = TRUE
CHECK_DEADLOCK FALSE
