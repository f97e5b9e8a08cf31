SPECIFICATION Spec
CONSTANTS
  Counts = {1, 2, 3, 4, 5, 6, 7, 14, 15}
  Maxes = {1, 3, 5, 6, 15}
  Offs <- MCOffsT
  Eyes = {0, 1}
  Bounds <- MCBoundsT
INVARIANTS Fits ChequerCount ManyShown DieInside CubeText Accepted
CHECK_DEADLOCK FALSE
