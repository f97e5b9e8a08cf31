CONSTANTS MAXROWS = 2 FULL = FALSE
SPECIFICATION Spec
INVARIANTS Rectangles Placed Faithful
CHECK_DEADLOCK FALSE
