SPECIFICATION Spec
CONSTANTS
  Pts = 1
  Total = 2
  MaxCube = 1
INVARIANTS AllChequers OneCube DiceShown ResignShown Symmetric Positioned
CHECK_DEADLOCK FALSE
