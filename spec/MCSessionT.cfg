SPECIFICATION Spec
CONSTANTS Subs = {1,2,3}
 MsgN = 3
 CallN = 4
INVARIANTS ExactlyOnceInOrder ArrivalOrder OnlyHandled NobodyMisses NoDoubles
PROPERTY AfterClose
CHECK_DEADLOCK FALSE
