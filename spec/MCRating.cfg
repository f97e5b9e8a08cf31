SPECIFICATION Spec
INVARIANTS Bounds Falls Law Chances Final
CHECK_DEADLOCK FALSE
