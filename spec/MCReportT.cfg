CONSTANTS MAXROWS = 2 FULL = TRUE
SPECIFICATION Spec
INVARIANTS Rectangles Placed Faithful
CHECK_DEADLOCK FALSE
