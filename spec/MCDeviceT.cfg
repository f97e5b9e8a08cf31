CONSTANTS URIS = {"a", "b"} SIZES = {4, 9} MAXH = 50 STEPS = 5
SPECIFICATION Spec
INVARIANTS Same Clean
CHECK_DEADLOCK FALSE
