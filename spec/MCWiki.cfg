SPECIFICATION Spec
INVARIANTS Tree Html1 ListDepth CiteDepth NoCite NoQuote BlankEnds CellPlace
CONSTANTS MaxLines = 4 Distinct = FALSE
CHECK_DEADLOCK FALSE
