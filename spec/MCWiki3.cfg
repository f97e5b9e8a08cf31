SPECIFICATION Spec
INVARIANTS Tree WordsKept
CONSTANTS MaxLines = 4 Distinct = TRUE
CHECK_DEADLOCK FALSE
