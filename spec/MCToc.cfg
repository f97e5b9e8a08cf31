SPECIFICATION Spec
INVARIANTS Well Listed Ids
CONSTANTS MaxLines = 4
CHECK_DEADLOCK FALSE
