SPECIFICATION Spec
INVARIANTS Sound Unique Moves
PROPERTY Cycle
CHECK_DEADLOCK FALSE
