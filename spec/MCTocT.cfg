SPECIFICATION Spec
INVARIANTS Well Listed Ids
CONSTANTS MaxLines = 5
CHECK_DEADLOCK FALSE
