SPECIFICATION Spec
CONSTANTS
  Counts = {1, 2, 5, 15}
  Maxes = {1, 5}
  Offs = {0, 1, 2}
  Eyes = {0, 1}
  Bounds <- MCBounds
INVARIANTS Fits ChequerCount ManyShown DieInside CubeText Accepted
CHECK_DEADLOCK FALSE
