SPECIFICATION Spec
INVARIANTS Agree Reached Partition
CONSTANTS MaxLen = 7
 MaxMove = 3
CHECK_DEADLOCK FALSE
