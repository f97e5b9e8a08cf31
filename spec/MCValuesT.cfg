CONSTANTS MAXOBJ = 5
FIELDS = {"a", "b"}
VALS = {0, 1}
SPECIFICATION Spec
INVARIANT Agree
PROPERTIES Frozen OneAtATime
CHECK_DEADLOCK FALSE
