SPECIFICATION Spec
INVARIANTS Tree Frontier Nest
PROPERTIES Kept
CONSTANTS MaxNodes = 5
 Use = {"List", "Itemize", "Div", "Bold", "Table", "Macro"}
CHECK_DEADLOCK FALSE
