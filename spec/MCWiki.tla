------------------------------------- MODULE MCWiki -------------------------------------
(* Every page of a few lines over a small alphabet of lines: blocks nest as the markup    *)
(* says, the document stays well-formed and in order, the HTML balanced.                  *)
EXTENDS Wiki, TLC
CONSTANTS MaxLines, Distinct
VARIABLES d, last, count, said
vars == <<d, last, count, said>>
T(w) == [y |-> "t", k |-> "", n |-> 0, t |-> w]
K(y, k, n, t) == [y |-> y, k |-> k, n |-> n, t |-> t]
L(y, raw, s, def, toks) == [y |-> y, raw |-> raw, s |-> s, def |-> def, proc |-> FALSE, toks |-> toks]
Alphabet(w) == {
  L("blank", "", "x", FALSE, <<>>),
  L("pre", "{{{", "x", FALSE, <<>>),
  L("line", "}}}", "x", FALSE, <<>>),
  L("line", w, "x", FALSE, <<T(w)>>),
  L("line", "'''" \o w, "x", FALSE, <<K("tog", "Bold", 0, ""), T(w)>>),
  L("line", "= " \o w \o " =", "x", FALSE, <<K("tog", "H1", 0, ""), T(w), K("tog", "H1", 0, "")>>),
  L("line", " * " \o w, " ", FALSE, <<K("item", "star", 1, ""), T(w)>>),
  L("line", "  + " \o w, " ", FALSE, <<K("item", "sign", 2, "+"), T(w)>>),
  L("line", "   1 " \o w, " ", FALSE, <<K("item", "ordered_numeric", 3, ""), T(w)>>),
  L("line", "> " \o w, ">", FALSE, <<K("cite", "", 1, ""), T(w)>>),
  L("line", ">> " \o w, ">", FALSE, <<K("cite", "", 2, ""), T(w)>>),
  L("line", "  " \o w, " ", FALSE, <<K("quote", "", 2, ""), T(w)>>),
  L("line", w \o "::", "x", TRUE, <<T(w), K("dd", "", 0, "")>>),
  L("line", "||" \o w \o "||", "x", FALSE, <<K("cell", "", 0, ""), T(w), K("tend", "", 0, "")>>),
  L("line", "||" \o w, "x", FALSE, <<K("cell", "", 0, ""), T(w)>>) }
NoLine == L("blank", "-", "x", FALSE, <<>>)
RECURSIVE Words(_)
Words(ts) == IF ts = <<>> THEN "" ELSE (IF Head(ts).y = "t" THEN Head(ts).t ELSE "") \o Words(Tail(ts))
Said(ln) == IF d.kind[d.cur] # "Wrapping" THEN Words(ln.toks) ELSE IF ln.raw = "}}}" THEN "" ELSE ln.raw \o "\n"
Init == d = Empty /\ last = NoLine /\ count = 0 /\ said = ""
Next == /\ count < MaxLines
        /\ \E ln \in Alphabet(IF Distinct THEN "w" \o ToString(count) ELSE "w") :
             d' = Line(d, ln) /\ last' = ln /\ said' = IF Distinct THEN said \o Said(ln) ELSE ""
        /\ count' = count + 1
Spec == Init /\ [][Next]_vars
Tree == WellFormed(d) /\ InOrder(d) /\ Allowed(d)
Html1 == LET h == PageHtml(d) IN Balanced(h, <<>>)
RECURSIVE TextOfEvents(_)
TextOfEvents(h) == IF h = <<>> THEN "" ELSE Head(h).t \o TextOfEvents(Tail(h))
WordsKept == TextOfEvents(PageHtml(d)) = said
Pre2 == d.kind[d.cur] = "Wrapping"
HasTok(y) == \E i \in 1..Len(last.toks) : last.toks[i].y = y
\* read as a line of a preformatted block the line is not markup
Markup == count > 0 /\ ~Pre2 /\ last.raw # "}}}"
TokOf(y) == last.toks[CHOOSE i \in 1..Len(last.toks) : last.toks[i].y = y]
ListDepth == (Markup /\ HasTok("item")) => Nesting(d, {"List"}) = TokOf("item").n /\ d.kind[d.par[d.cur]] = "List" /\ d.kind[d.cur] = "Itemize"
CiteDepth == (Markup /\ HasTok("cite")) => Nesting(d, {"Citation"}) = TokOf("cite").n
NoCite == (Markup /\ last.s # ">" /\ last.y = "line") => Nesting(d, {"Citation"}) = 0
NoQuote == (Markup /\ last.s # " " /\ last.y = "line") => Nesting(d, {"BlockQuote"}) = 0
BlankEnds == (Markup /\ last.y = "blank" /\ last.raw = "") => d.cur = 1
CellPlace == (Markup /\ HasTok("cell")) => (IF HasTok("tend") THEN d.kind[d.cur] \in {"Table", "Itemize"}
                                            ELSE d.kind[d.cur] = "TableCell" /\ Anc(d, {"TableRow"}) # 0 /\ Anc(d, {"Table"}) # 0)
=========================================================================================
