CONSTANTS N = 6 HOME = 3 CHEQ = 2 DICE = {1, 2, 3, 4}
SPECIFICATION Spec
INVARIANTS TypeOK Conserved Ledger Rewind Symmetric FlipCommutes FastRule UniqueOff NoStepLeft
CHECK_DEADLOCK FALSE
