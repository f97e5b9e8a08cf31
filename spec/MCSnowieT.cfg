SPECIFICATION Spec
INVARIANTS Agree Reached Partition
CONSTANTS MaxLen = 13
 MaxMove = 5
CHECK_DEADLOCK FALSE
