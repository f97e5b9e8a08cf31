SPECIFICATION Spec
CONSTANTS
  Pts = 3
  Total = 2
  MaxCube = 1
INVARIANTS AllChequers OneCube DiceShown ResignShown Symmetric Positioned
CHECK_DEADLOCK FALSE
