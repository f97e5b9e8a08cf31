-------------------------------------- MODULE Wiki --------------------------------------
(* The wiki formatter: what each line of markup does to the document (module Doctree).    *)
(*                                                                                       *)
(* A line is [y, raw, s, def, proc, toks]: y is "blank", "pre" (just {{{) or "line";      *)
(* s its first character (" ", ">" or "x" for any other); def: it ends in ::;             *)
(* proc: it names a processor (#!name); toks its tokens [y, k, n, t] in order.            *)
(* For elements with attributes txt holds them as sorted "name=value" strings joined by   *)
(* blanks; for lists it holds the kind of list and for items their sign.                  *)
EXTENDS Doctree, TLC
EnterT(d, k, t) == LET e == DoEnter(d, k) IN [e EXCEPT !.txt[e.cur] = t]
Leave1(d, k) == DoLeave(d, {k})
Toggle(d, k) == IF Anc(d, {k}) # 0 THEN Leave1(d, k) ELSE DoEnter(d, k)
Need(d, k, t) == IF Anc(d, {k}) # 0 THEN d ELSE EnterT(d, k, t)
RECURSIVE Unnest(_, _, _)
Unnest(d, k, n) == IF Nesting(d, {k}) > n THEN Unnest(Leave1(d, k), k, n) ELSE d
RECURSIVE NestTo(_, _, _, _)
NestTo(d, k, t, n) == IF Nesting(d, {k}) < n THEN NestTo(EnterT(d, k, t), k, t, n) ELSE d

Item(d0, tok) ==
  LET d1 == Unnest(d0, "List", tok.n)
      nest == Nesting(d1, {"List"})
      near == Anc(d1, {"List", "Itemize"})
      d2 == IF nest = tok.n THEN (IF d1.kind[near] = "Itemize" THEN Leave1(d1, "Itemize") ELSE d1)
            ELSE EnterT(NestTo(d1, "List", "star", tok.n - 1), "List", tok.k)
      sign == IF d2.txt[d2.cur] = "sign" THEN tok.t ELSE ""
  IN EnterT(d2, "Itemize", sign)
Cite(d, tok) == Need(NestTo(Unnest(d, "Citation", tok.n), "Citation", "", tok.n), "CitationContent", "")
Cell(d) == DoEnter(Leave1(Need(Need(d, "Table", "class=wiki"), "TableRow", ""), "TableCell"), "TableCell")
Quote(d) ==
  IF Anc(d, {"DefinitionList"}) = 0 THEN Need(d, "BlockQuote", "")
  ELSE LET b == Anc(d, {"DefinitionBody"}) IN IF b = 0 THEN DoEnter(d, "DefinitionBody") ELSE [d EXCEPT !.cur = b]
BoldItalic(d) ==
  IF Anc(d, {"Bold", "Italic"}) # 0 THEN Leave1(Leave1(d, "Bold"), "Italic")
  ELSE DoEnter(DoEnter(d, "Bold"), "Italic")
Link(d, attrs, text) == Leave1(DoText(EnterT(d, "Anchor", attrs), text), "Anchor")
IconLink(d, attrs, text) ==
  LET e == DoText(EnterT(EnterT(d, "Anchor", attrs), "Span", "class=icon"), text)
  IN Leave1(Leave1(e, "Span"), "Anchor")
Error(d, text) == Leave1(DoText(EnterT(d, "Span", "class=error"), text), "Span")

Tok(d, k) ==
  CASE k.y = "t"     -> DoText(d, k.t)
    [] k.y = "tog"   -> Toggle(d, k.k)
    [] k.y = "bi"    -> BoldItalic(d)
    [] k.y = "ms"    -> DoEnter(d, "Monospace")
    [] k.y = "me"    -> Leave1(d, "Monospace")
    [] k.y = "cell"  -> Cell(d)
    [] k.y = "tend"  -> Leave1(d, "TableRow")
    [] k.y = "item"  -> Item(d, k)
    [] k.y = "cite"  -> Cite(d, k)
    [] k.y = "quote" -> Quote(d)
    [] k.y = "entry" -> Link(d, "class=entry href=/entry/" \o k.k \o " title=" \o k.t, k.t)
    [] k.y = "query" -> Link(d, "class=query href=/query/" \o k.k \o " title=" \o k.t, k.t)
    [] k.y = "match" -> Link(d, "class=match href=/match/" \o k.k \o " title=title", k.t)
    [] k.y = "wiki"  -> Link(d, "class=wiki-link href=/wiki/" \o k.t \o " title=" \o k.t, k.t)
    [] k.y = "url"   -> IconLink(d, "class=ext-link href=" \o k.t \o " title=title", k.t)
    [] k.y = "urld"  -> IconLink(d, "class=ext-link href=" \o k.k \o " title=" \o k.t, k.t)
    [] k.y = "br"    -> Leave1(DoEnter(d, "BR"), "BR")
    [] k.y = "toc"   -> DoAppend(d, "Toc")
    [] k.y = "pos"   -> LET e == EnterT(d, "Span", "class=position") IN Leave1(Leave1(EnterT(e, "Img", "src=" \o k.t), "Img"), "Span")
    [] k.y = "unk"   -> Error(d, "No such macro \"" \o k.k \o "\" with argument \"" \o k.t \o "\"")
    [] k.y = "badargs" -> Error(d, "Bad args \"" \o k.t \o "\" for " \o k.k)
    [] k.y = "span"  -> Leave1(DoText(EnterT(d, "Span", "class=" \o k.k), k.t), "Span")
    [] k.y = "dd"    -> d
RECURSIVE Toks(_, _)
Toks(d, ts) == IF ts = <<>> THEN d ELSE Toks(Tok(d, Head(ts)), Tail(ts))

\* inside a preformatted block lines are kept as they are
Pre(d, ln) ==
  IF ln.raw = "}}}" THEN Leave1(d, "Wrapping")
  ELSE IF ln.proc THEN d
  ELSE [d EXCEPT !.txt[d.cur] = @ \o ln.raw \o "\n"]

Open(d, ln) ==
  LET d1 == Need(d, "Div", "")
      d2 == IF ln.s # " " THEN DoLeave(d1, {"BlockQuote", "DefinitionBody"}) ELSE d1
      d3 == IF ln.s # ">" THEN Unnest(d2, "Citation", 0) ELSE d2
  IN d3
Line(d, ln) ==
  IF d.kind[d.cur] = "Wrapping" THEN Pre(d, ln)
  ELSE IF ln.y = "blank" THEN DoDone(Leave1(d, "Div"))
  ELSE IF ln.y = "pre" THEN DoEnter(Open(d, ln), "Wrapping")
  ELSE LET d1 == Open(d, ln)
           d2 == IF ln.def THEN DoEnter(Need(d1, "DefinitionList", ""), "DefinitionHeader") ELSE d1
           d3 == Toks(d2, ln.toks)
       IN IF ln.def THEN DoEnter(Leave1(d3, "DefinitionHeader"), "DefinitionBody") ELSE d3
RECURSIVE Lines(_, _)
Lines(d, ls) == IF ls = <<>> THEN d ELSE Lines(Line(d, Head(ls)), Tail(ls))
Page(ls) == Lines(Empty, ls)

(* ------------------------------- table of contents -----------------------------------*)
HeadLevel == [H1 |-> 0, H2 |-> 1, H3 |-> 2]
\* the headings of the document in document order
RECURSIVE HeadsOf(_, _)
RECURSIVE HeadsAll(_, _)
HeadsOf(d, n) == (IF d.kind[n] \in DOMAIN HeadLevel THEN <<n>> ELSE <<>>) \o HeadsAll(d, d.kids[n])
HeadsAll(d, s) == IF s = <<>> THEN <<>> ELSE HeadsOf(d, Head(s)) \o HeadsAll(d, Tail(s))
Headings(d) == HeadsOf(d, 1)
RECURSIVE TextIn(_, _)
RECURSIVE TextInAll(_, _)
TextIn(d, n) == IF d.kind[n] = "Text" THEN d.txt[n] ELSE TextInAll(d, d.kids[n])
TextInAll(d, s) == IF s = <<>> THEN "" ELSE TextIn(d, Head(s)) \o TextInAll(d, Tail(s))
Fragment(i) == "fragment" \o ToString(i - 1)
RECURSIVE TocItems(_, _, _, _, _)
TocItems(t, d, hs, i, nest) ==
  IF i > Len(hs) THEN t
  ELSE LET n == HeadLevel[d.kind[hs[i]]] IN
    IF nest < n THEN TocItems(EnterT(t, "List", "ordered_numeric"), d, hs, i, nest + 1)
    ELSE IF nest > n THEN TocItems(Leave1(t, "List"), d, hs, i, nest - 1)
    ELSE LET a == EnterT(EnterT(t, "Itemize", ""), "Anchor", "href=#" \o Fragment(i))
             b == IF d.kids[hs[i]] = <<>> THEN a ELSE DoText(a, TextIn(d, hs[i]))
         IN TocItems(Leave1(Leave1(b, "Anchor"), "Itemize"), d, hs, i + 1, nest)
TocOf(d) == TocItems(EnterT(Empty, "List", "ordered_numeric"), d, Headings(d), 1, 0)
HasToc(d) == \E n \in 1..Len(d.kind) : d.kind[n] = "Toc"
HeadAttr(d, n) == IF HasToc(d) THEN LET hs == Headings(d) IN "id=" \o Fragment(CHOOSE i \in 1..Len(hs) : hs[i] = n) ELSE ""

(* ------------------------------------ the HTML ---------------------------------------*)
\* an event: e = "o" open, "c" close, "s" single, "t" text; n the tag, a the attributes, t the text
Op(n, a) == << [e |-> "o", n |-> n, a |-> a, t |-> ""] >>
Cl(n) == << [e |-> "c", n |-> n, a |-> "", t |-> ""] >>
Si(n, a) == << [e |-> "s", n |-> n, a |-> a, t |-> ""] >>
Tx(t) == IF t = "" THEN <<>> ELSE << [e |-> "t", n |-> "", a |-> "", t |-> t] >>
ListTag(t) == IF t \in {"star", "sign"} THEN "ul" ELSE "ol"
ListAttr(t) == CASE t = "sign" -> "class=sign" [] t = "ordered_alpha" -> "class=loweralpha" [] t = "ordered_roman" -> "class=lowerroman" [] OTHER -> ""
SignClass(t) == CASE t = "+" -> "class=plus" [] t = "++" -> "class=doubleplus" [] t = "+++" -> "class=tripleplus"
                  [] t = "-" -> "class=minus" [] t = "--" -> "class=doubleminus" [] t = "---" -> "class=tripleminus" [] OTHER -> ""
PlainTag == [Span |-> "span", Bold |-> "strong", Italic |-> "i", Strike |-> "del", Subscript |-> "sub", Superscript |-> "sup", TableCell |-> "td",
             TableRow |-> "tr", TableHeader |-> "th", DefinitionHeader |-> "dt", Anchor |-> "a", H1 |-> "h1", H2 |-> "h2", H3 |-> "h3",
             DefinitionBody |-> "dd", Div |-> "div", DefinitionList |-> "dl", Table |-> "table"]
RECURSIVE Html(_, _)
RECURSIVE HtmlAll(_, _)
Html(d, n) ==
  LET k == d.kind[n]  t == d.txt[n]  in == HtmlAll(d, d.kids[n])
  IN CASE k = "Text" -> Tx(t)
       [] k = "Root" -> in
       [] k = "List" -> Op(ListTag(t), ListAttr(t)) \o in \o Cl(ListTag(t))
       [] k = "Itemize" -> Op("li", SignClass(t)) \o in \o Cl("li")
       [] k = "Underline" -> Op("span", "class=underline") \o in \o Cl("span")
       [] k = "Monospace" -> Op("span", "class=monospace") \o in \o Cl("span")
       [] k = "BlockQuote" -> Op("blockquote", "") \o Op("p", "") \o in \o Cl("p") \o Cl("blockquote")
       [] k = "Citation" -> Op("blockquote", "class=citation") \o in \o Cl("blockquote")
       [] k = "CitationContent" -> Op("p", "") \o in \o Cl("p")
       [] k = "Wrapping" -> Op("pre", "class=wiki") \o Tx(t) \o Cl("pre")
       [] k = "BR" -> Si("br", t)
       [] k = "Img" -> Si("img", t)
       [] k = "Toc" -> LET c == TocOf(d) IN Html(c, 1)
       [] k \in DOMAIN HeadLevel -> Op(PlainTag[k], HeadAttr(d, n)) \o in \o Cl(PlainTag[k])
       [] OTHER -> Op(PlainTag[k], t) \o in \o Cl(PlainTag[k])
HtmlAll(d, s) == IF s = <<>> THEN <<>> ELSE Html(d, Head(s)) \o HtmlAll(d, Tail(s))
\* neighbouring texts are one text
RECURSIVE Join(_, _)
Join(s, acc) ==
  IF s = <<>> THEN acc
  ELSE LET x == Head(s) IN
    Join(Tail(s), IF x.e = "t" /\ acc # <<>> /\ acc[Len(acc)].e = "t" THEN [acc EXCEPT ![Len(acc)].t = @ \o x.t] ELSE Append(acc, x))
PageHtml(d) == Join(Html(d, 1), <<>>)

(* ----------------------------- well-formed event sequences ---------------------------*)
RECURSIVE Balanced(_, _)
Balanced(s, open) ==
  IF s = <<>> THEN open = <<>>
  ELSE LET x == Head(s) IN
    CASE x.e = "o" -> Balanced(Tail(s), <<x.n>> \o open)
      [] x.e = "c" -> IF open # <<>> /\ Head(open) = x.n THEN Balanced(Tail(s), Tail(open)) ELSE FALSE
      [] OTHER -> Balanced(Tail(s), open)
=========================================================================================
