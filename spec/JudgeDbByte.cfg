CONSTANT N = 24
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
