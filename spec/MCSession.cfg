SPECIFICATION Spec
CONSTANTS Subs = {1,2,3}
 MsgN = 2
 CallN = 3
INVARIANTS ExactlyOnceInOrder ArrivalOrder OnlyHandled NobodyMisses NoDoubles
PROPERTY AfterClose
CHECK_DEADLOCK FALSE
