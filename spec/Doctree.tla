------------------------------------ MODULE Doctree ------------------------------------
(* The document tree of bglib.doc and its editor.                                        *)
(*                                                                                       *)
(* A document d is a record: kind[i], par[i], kids[i], txt[i] for node i (in order of     *)
(* creation; node 1 is the root) and cur, the editor's position.                         *)
EXTENDS Integers, Sequences, FiniteSets

\* the class hierarchy: each kind with the classes it belongs to
LineKinds == {"TableCell", "TableRow", "TableHeader", "Itemize", "DefinitionHeader", "CitationContent"}
SpanKinds == {"Span", "BR", "Bold", "Italic", "Underline", "Strike", "Subscript", "Superscript", "Monospace", "Anchor", "Img"}
HeadKinds == {"H1", "H2", "H3"}
BoxKinds  == {"DefinitionBody", "Div", "DefinitionList", "Table", "BlockQuote", "Citation", "List"}
Kinds == LineKinds \union SpanKinds \union HeadKinds \union BoxKinds \union {"Macro", "Wrapping", "Base"}
Classes(k) == {k, "Base"} \union (CASE k \in LineKinds -> {"Line"}
                                    [] k \in SpanKinds -> {"Line", "Span"}
                                    [] k \in HeadKinds -> {"Box", "Heading"}
                                    [] k \in BoxKinds -> {"Box"}
                                    [] k = "Toc" -> {"Macro"}
                                    [] OTHER -> {})
Is(k, K) == Classes(k) \intersect K # {}

\* what may stand directly in an element of kind p
Extra(p) == CASE p = "TableRow" -> {"TableCell", "TableHeader"}
              [] p = "Itemize" -> {"List", "Itemize", "Table", "TableRow", "TableHeader", "TableCell"}
              [] p = "DefinitionBody" -> {"List"}
              [] p = "DefinitionList" -> {"DefinitionHeader", "DefinitionBody", "List"}
              [] p = "Table" -> {"TableRow", "TableHeader", "TableCell"}
              [] p = "CitationContent" -> {"Citation", "CitationContent"}
              [] p = "Citation" -> {"Citation", "CitationContent"}
              [] p = "List" -> {"List", "Itemize"}
              [] OTHER -> {}
Accepts(p, k) ==
  CASE p = "Root" -> TRUE
    [] p = "Macro" \/ p = "Toc" -> FALSE
    [] p = "Div" -> Is(k, {"Span", "Box"})
    [] p \in {"Base", "Wrapping", "Text"} -> Is(k, {"Macro"})
    [] OTHER -> Is(k, {"Macro", "Span"} \union Extra(p))

Empty == [kind |-> <<"Root">>, par |-> <<0>>, kids |-> << <<>> >>, txt |-> <<"">>, cur |-> 1]
Size(d) == Len(d.kind)
RECURSIVE Home(_, _, _)
Home(d, c, k) == IF Accepts(d.kind[c], k) THEN c ELSE Home(d, d.par[c], k)
New(d, c, k, t) == [d EXCEPT !.kind = Append(@, k), !.par = Append(@, c), !.txt = Append(@, t),
                             !.kids = Append([@ EXCEPT ![c] = Append(@, Size(d) + 1)], <<>>)]
DoAppend(d, k) == LET c == Home(d, d.cur, k) IN [New(d, c, k, "") EXCEPT !.cur = c]
DoEnter(d, k) == LET e == DoAppend(d, k) IN [e EXCEPT !.cur = Size(e)]
\* nearest enclosing element of one of the classes K, 0 if none
RECURSIVE Find(_, _, _)
Find(d, c, K) == IF c = 0 THEN 0 ELSE IF Is(d.kind[c], K) THEN c ELSE Find(d, d.par[c], K)
Anc(d, K) == Find(d, d.cur, K)
DoLeave(d, K) == LET x == Anc(d, K) IN IF x = 0 THEN d ELSE [d EXCEPT !.cur = IF d.par[x] = 0 THEN 1 ELSE d.par[x]]
DoDone(d) == [d EXCEPT !.cur = 1]
DoText(d, t) ==
  LET ks == d.kids[d.cur]
  IN IF ks # <<>> /\ d.kind[ks[Len(ks)]] = "Text" THEN [d EXCEPT !.txt[ks[Len(ks)]] = @ \o t]
     ELSE New(d, d.cur, "Text", t)
RECURSIVE Count(_, _, _)
Count(d, c, K) == IF c = 0 THEN 0 ELSE (IF Is(d.kind[c], K) THEN 1 ELSE 0) + Count(d, d.par[c], K)
Nesting(d, K) == Count(d, d.cur, K)
DoRemove(d, n) == [d EXCEPT !.kids[d.cur] = SelectSeq(@, LAMBDA x : x # n)]

\* the order in which a visitor meets the nodes: n on entering, -n on leaving
RECURSIVE Walk(_, _)
RECURSIVE WalkAll(_, _)
Walk(d, n) == <<n>> \o WalkAll(d, d.kids[n]) \o <<-n>>
WalkAll(d, s) == IF s = <<>> THEN <<>> ELSE Walk(d, Head(s)) \o WalkAll(d, Tail(s))
Entered(d) == SelectSeq(Walk(d, 1), LAMBDA x : x > 0)

\* a single tree, parents recorded right, everything where it was put, in the order it was added
WellFormed(d) ==
  /\ d.cur \in 1..Size(d)
  /\ d.par[1] = 0
  /\ \A n \in 2..Size(d) : d.par[n] \in 1..(n - 1) /\ Cardinality({i \in 1..Len(d.kids[d.par[n]]) : d.kids[d.par[n]][i] = n}) = 1
  /\ \A n \in 1..Size(d) : \A i \in 1..Len(d.kids[n]) : d.par[d.kids[n][i]] = n
InOrder(d) == Entered(d) = [i \in 1..Size(d) |-> i]
Allowed(d) == \A n \in 2..Size(d) : d.kind[n] = "Text" \/ Accepts(d.kind[d.par[n]], d.kind[n])
========================================================================================
