SPECIFICATION Spec
INVARIANTS Reads Names Nums
CHECK_DEADLOCK FALSE
