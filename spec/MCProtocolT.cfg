CONSTANTS LENGTHS = {0, 1, 3, 5} MAXSCORE = 4 MAXCUBE = 3 EMIT = TRUE
SPECIFICATION Spec
INVARIANTS InvCoherent InvOneDecider InvScore InvLoserDecided InvSymmetric InvCubeOwner Emit
PROPERTY Ended
CHECK_DEADLOCK FALSE
