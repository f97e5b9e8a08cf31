CONSTANTS N = 24 TOTAL = 80
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
