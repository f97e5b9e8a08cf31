SPECIFICATION Spec
INVARIANTS Tree Frontier Nest
PROPERTIES Kept
CONSTANTS MaxNodes = 6
 Use = {"List", "Itemize", "Div", "Bold", "TableRow", "Table", "Macro", "Citation", "CitationContent"}
CHECK_DEADLOCK FALSE
