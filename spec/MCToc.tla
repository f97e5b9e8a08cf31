------------------------------------- MODULE MCToc --------------------------------------
(* Every short page of headings, tables of contents, text and blank lines: the table lists *)
(* the headings in order, as deep as their levels, and links to ids the headings carry.    *)
EXTENDS Wiki
CONSTANTS MaxLines
VARIABLES d, count
T(w) == [y |-> "t", k |-> "", n |-> 0, t |-> w]
K(y, k, n, t) == [y |-> y, k |-> k, n |-> n, t |-> t]
L(y, toks) == [y |-> y, raw |-> "", s |-> "x", def |-> FALSE, proc |-> FALSE, toks |-> toks]
H(k, w) == L("line", <<K("tog", k, 0, ""), T(w), K("tog", k, 0, "")>>)
Alphabet(w) == {L("blank", <<>>), L("line", <<K("toc", "", 0, "")>>), L("line", <<T(w)>>), H("H1", w), H("H2", w), H("H3", w),
                L("line", <<K("tog", "H1", 0, ""), T(w), K("tog", "Bold", 0, ""), T("b"), K("tog", "Bold", 0, ""), K("toc", "", 0, ""), K("tog", "H1", 0, "")>>),
                L("line", <<K("item", "star", 1, ""), K("toc", "", 0, ""), T(w)>>)}
Init == d = Empty /\ count = 0
Next == count < MaxLines /\ count' = count + 1 /\ \E ln \in Alphabet("w" \o ToString(count)) : d' = Line(d, ln)
Spec == Init /\ [][Next]_<<d, count>>
Page1 == PageHtml(d)
Well == Balanced(Page1, <<>>) /\ WellFormed(d)
Toc == TocOf(d)
Anchors(e) == SelectSeq([n \in 1..Len(e.kind) |-> n], LAMBDA n : e.kind[n] = "Anchor")
RECURSIVE DepthOf(_, _)
DepthOf(e, n) == IF n = 0 THEN 0 ELSE (IF e.kind[n] = "List" THEN 1 ELSE 0) + DepthOf(e, e.par[n])
Listed == LET hs == Headings(d)  as == Anchors(Toc) IN
  /\ Len(as) = Len(hs)
  /\ \A i \in 1..Len(hs) : /\ TextIn(Toc, as[i]) = TextIn(d, hs[i])
                           /\ DepthOf(Toc, as[i]) = HeadLevel[d.kind[hs[i]]] + 1
                           /\ Toc.txt[as[i]] = "href=#" \o Fragment(i)
Ids == HasToc(d) => LET op == SelectSeq(Page1, LAMBDA x : x.e = "o" /\ x.n \in {"h1", "h2", "h3"}) IN
  /\ Len(op) = Len(Headings(d))
  /\ \A i \in 1..Len(op) : op[i].a = "id=" \o Fragment(i)
=========================================================================================
