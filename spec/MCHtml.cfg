SPECIFICATION Spec
INVARIANTS Inverse Safe Plain Idempotent Keeps SameVisible Fragile
CONSTANTS MaxLen = 5
CHECK_DEADLOCK FALSE
