CONSTANTS N = 24 HOME = 6
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
