CONSTANTS URIS = {"a", "b"} SIZES = {4, 9} MAXH = 30 STEPS = 4
SPECIFICATION Spec
INVARIANTS Same Clean
CHECK_DEADLOCK FALSE
