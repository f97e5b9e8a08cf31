SPECIFICATION Spec
INVARIANTS Inverse Sum Distinct Opponent
CHECK_DEADLOCK FALSE
