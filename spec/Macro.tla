-------------------------------------- MODULE Macro --------------------------------------
(* The macro registry (bglib.doc.macro) and what a macro call does to a page.             *)
(* reg maps a name to the handler registered under it last ("" for none); a handler is     *)
(* [id, name, kind]: kind "say" writes text, "span" writes it into an element of its own,  *)
(* "bad" and "none" report that the arguments are bad.                                     *)
EXTENDS Wiki
Builtin == {"BR", "TableOfContent", "Position"}
Reg0 == [n \in Builtin |-> [id |-> n, name |-> n, kind |-> n]]
Has(reg, n) == n \in DOMAIN reg
Register(reg, h) == [n \in DOMAIN reg \union {h.name} |-> IF n = h.name THEN h ELSE reg[n]]
Unregister(reg, n, id) == IF Has(reg, n) /\ reg[n].id = id THEN [m \in DOMAIN reg \ {n} |-> reg[m]] ELSE reg
T(w) == [y |-> "t", k |-> "", n |-> 0, t |-> w]
K(y, k, n, t) == [y |-> y, k |-> k, n |-> n, t |-> t]
\* a call: the tokens it comes to, and the handlers called with their arguments
Effect(reg, tok) ==
  IF ~Has(reg, tok.k) THEN K("unk", tok.k, 0, tok.t)
  ELSE LET h == reg[tok.k] IN
    CASE h.kind = "say" -> T("(" \o h.id \o ":" \o tok.t \o ")")
      [] h.kind = "span" -> K("span", h.id, 0, tok.t)
      [] h.kind = "BR" -> K("br", "", 0, "")
      [] h.kind = "TableOfContent" -> K("toc", "", 0, "")
      [] h.kind = "Position" -> (IF tok.n = 1 THEN K("pos", "", 0, tok.src) ELSE K("badargs", tok.k, 0, tok.t))
      [] OTHER -> K("badargs", tok.k, 0, tok.t)
Called(reg, tok) ==
  IF Has(reg, tok.k) /\ reg[tok.k].kind \in {"say", "span", "bad", "none"} THEN << <<reg[tok.k].id, tok.t>> >> ELSE <<>>
Resolve(reg, ln) == [ln EXCEPT !.toks = [i \in 1..Len(@) |-> IF @[i].y = "mac" THEN Effect(reg, @[i]) ELSE @[i]]]
ResolveAll(reg, ls) == [i \in 1..Len(ls) |-> Resolve(reg, ls[i])]
RECURSIVE CallsTok(_, _)
CallsTok(reg, ts) == IF ts = <<>> THEN <<>> ELSE (IF Head(ts).y = "mac" THEN Called(reg, Head(ts)) ELSE <<>>) \o CallsTok(reg, Tail(ts))
\* the calls a page makes, as the document d grows (a call in a preformatted block is text)
RECURSIVE CallsOf(_, _, _)
CallsOf(reg, d, ls) ==
  IF ls = <<>> THEN <<>>
  ELSE (IF d.kind[d.cur] = "Wrapping" THEN <<>> ELSE CallsTok(reg, Head(ls).toks)) \o CallsOf(reg, Line(d, Resolve(reg, Head(ls))), Tail(ls))
=========================================================================================
