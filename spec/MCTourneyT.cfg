CONSTANTS PLAYERS = {"a", "b", "c", "d", "e"}
LIVES = 2
SPECIFICATION Spec
INVARIANTS Everyone Lives Rounds
PROPERTY Winner
CHECK_DEADLOCK FALSE
