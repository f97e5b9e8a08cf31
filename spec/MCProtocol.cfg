CONSTANTS LENGTHS = {0, 1, 3} MAXSCORE = 2 MAXCUBE = 2 EMIT = TRUE
SPECIFICATION Spec
INVARIANTS InvCoherent InvOneDecider InvScore InvLoserDecided InvSymmetric InvCubeOwner Emit
PROPERTY Ended
CHECK_DEADLOCK FALSE
