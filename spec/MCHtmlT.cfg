SPECIFICATION Spec
INVARIANTS Inverse Safe Plain Idempotent Keeps SameVisible Fragile
CONSTANTS MaxLen = 7
CHECK_DEADLOCK FALSE
