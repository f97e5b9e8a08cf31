CONSTANTS N = 5 HOME = 2 CHEQ = 2 DICE = {1, 2, 3}
SPECIFICATION Spec
INVARIANTS TypeOK Conserved Ledger Rewind Symmetric FlipCommutes FastRule UniqueOff NoStepLeft
CHECK_DEADLOCK FALSE
