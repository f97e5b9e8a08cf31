-------------------------------------- MODULE Html --------------------------------------
(* The HTML helpers (bglib.doc.html) over texts as sequences of characters.               *)
EXTENDS Sequences, Naturals
RECURSIVE FlatMap(_, _)
FlatMap(f, s) == IF s = <<>> THEN <<>> ELSE f[Head(s)] \o FlatMap(f, Tail(s))
Entity == [c \in {"<", ">", "&"} |-> CASE c = "<" -> <<"&", "l", "t", ";">> [] c = ">" -> <<"&", "g", "t", ";">> [] c = "&" -> <<"&", "a", "m", "p", ";">>]
RECURSIVE Escape(_)
Escape(s) == IF s = <<>> THEN <<>> ELSE (IF Head(s) \in DOMAIN Entity THEN Entity[Head(s)] ELSE <<Head(s)>>) \o Escape(Tail(s))
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Drop(s, n) == SubSeq(s, n + 1, Len(s))
\* what a reader of HTML sees in s
RECURSIVE Unescape(_)
Unescape(s) ==
  IF s = <<>> THEN <<>>
  ELSE IF Starts(s, Entity["<"]) THEN <<"<">> \o Unescape(Drop(s, 4))
  ELSE IF Starts(s, Entity[">"]) THEN <<">">> \o Unescape(Drop(s, 4))
  ELSE IF Starts(s, Entity["&"]) THEN <<"&">> \o Unescape(Drop(s, 5))
  ELSE <<Head(s)>> \o Unescape(Tail(s))
\* no markup: no < or >, & only as the start of an entity
RECURSIVE NoMarkup(_)
NoMarkup(s) ==
  s = <<>> \/ (/\ Head(s) \notin {"<", ">"}
               /\ Head(s) = "&" => (\E c \in DOMAIN Entity : Starts(s, Entity[c]))
               /\ NoMarkup(Tail(s)))
Visible(s) == SelectSeq(s, LAMBDA c : c # "\n")
RECURSIVE Break(_)
Break(s) == IF s = <<>> THEN <<>> ELSE (IF Head(s) = ">" THEN <<">", "\n">> ELSE <<Head(s)>>) \o Break(Tail(s))
Normal(s) == Break(Visible(s))
SameHtml(a, b) == Normal(a) = Normal(b)
(* documents as sequences of [y, n, at, t]: y "tag" with name n and attributes at, or "text" t *)
RECURSIVE LStrip(_)
LStrip(s) == IF s # <<>> /\ Head(s) = " " THEN LStrip(Tail(s)) ELSE s
RECURSIVE RStrip(_)
RStrip(s) == IF s # <<>> /\ s[Len(s)] = " " THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == RStrip(LStrip(Visible(s)))
AttrSet(t) == {t.at[i] : i \in 1..Len(t.at)}
RECURSIVE DocNorm(_)
DocNorm(ts) ==
  IF ts = <<>> THEN <<>>
  ELSE LET x == Head(ts) IN
    IF x.y = "tag" THEN << <<x.n, AttrSet(x)>> >> \o DocNorm(Tail(ts))
    ELSE IF Strip(x.t) = <<>> THEN DocNorm(Tail(ts)) ELSE << <<"text", Strip(x.t)>> >> \o DocNorm(Tail(ts))
SameDoc(a, b) == DocNorm(a) = DocNorm(b)
\* tags of a fragment: [e, n] with e "o", "c" or "s"
RECURSIVE Closed(_, _)
Closed(ts, open) ==
  IF ts = <<>> THEN open = <<>>
  ELSE LET x == Head(ts) IN
    CASE x.e = "o" -> Closed(Tail(ts), <<x.n>> \o open)
      [] x.e = "c" -> IF open # <<>> /\ Head(open) = x.n THEN Closed(Tail(ts), Tail(open)) ELSE FALSE
      [] OTHER -> Closed(Tail(ts), open)
=========================================================================================
