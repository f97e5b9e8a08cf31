------------------------------------ MODULE JudgeWiki ------------------------------------
(* "page": lines with known tokens, the events of the real page must be those of the      *)
(* specification.  "soup": any text; the page must be well-formed, stable and keep the    *)
(* user's words and markup characters.                                                   *)
EXTENDS Wiki, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VTRACE)
VARIABLE l
F(name, ok) == IF ok THEN {} ELSE {name}
OwnTags == {"div", "span", "strong", "i", "del", "sub", "sup", "td", "tr", "table", "th", "li", "ul", "ol", "dt", "dd", "dl", "a", "h1", "h2", "h3",
            "blockquote", "p", "pre", "br", "img"}
OwnAttrs == {"class", "title", "href", "src", "id", "colspan", "rowspan"}
Esc(a) == CASE a = "<" -> "&lt;" [] a = "&" -> "&amp;" [] a = ">" -> "&gt;" [] OTHER -> a
NoGt(s, gt) == IF gt THEN s ELSE SelectSeq(s, LAMBDA x : x \notin {">", "&gt;"})
Page1(r) ==
  IF r.err # "" THEN {"formatting fails: " \o r.err}
  ELSE F("only well-formed markup", r.bad = <<>>)
       \union F("the page has the structure its markup dictates", r.events = PageHtml(Page(r.lines)))
RECURSIVE TextsOf(_)
TextsOf(h) == IF h = <<>> THEN "" ELSE Head(h).t \o TextsOf(Tail(h))
Links(h) == LET s == SelectSeq(h, LAMBDA x : x.n = "a" /\ x.e = "o") IN [i \in 1..Len(s) |-> s[i].a]
Said(r) ==
  IF r.err # "" THEN {"formatting fails: " \o r.err}
  ELSE LET h == PageHtml(Page(r.lines)) IN
       F("nothing of the user's text becomes markup", r.bad = <<>>)
       \union F("the text of the page is the text written", TextsOf(r.events) = TextsOf(h))
       \union F("links and their titles are those written", Links(r.events) = Links(h))
Soup(r) ==
  IF r.err # "" THEN {"formatting fails: " \o r.err}
  ELSE IF r.words
  THEN LET want == NoGt(r.atoms, r.gt)
       IN F("nothing of the user's text becomes markup", r.bad = <<>>)
          \union F("words and markup characters appear once, in order, escaped once", NoGt(r.seen, r.gt) = [i \in 1..Len(want) |-> Esc(want[i])])
  ELSE F("only well-formed markup", r.bad = <<>>)
       \union F("tags are balanced and properly nested", Balanced(r.events, <<>>))
       \union F("only the formatter's own elements", \A i \in 1..Len(r.events) : r.events[i].e = "t" \/ r.events[i].n \in OwnTags)
       \union F("only the formatter's own attributes", \A i \in 1..Len(r.names) : r.names[i] \in OwnAttrs)
       \union F("the page is text", r.texttype)
       \union F("asking again gives the same page", r.again)
       \union F("the page depends on its text alone", r.fresh)
       \union F("feeding line by line gives the same page", r.linewise)
       \union F("the page is accepted by an XML parser", r.valid)
Judge(r) == CASE r.op = "page" -> Page1(r) [] r.op = "said" -> Said(r) [] OTHER -> Soup(r)
Init == l = 0
Next == /\ l < Len(Trace)
        /\ LET bad == Judge(Trace[l + 1]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"@BAD", l + 1, bad>>)
        /\ l' = l + 1
        /\ (IF l' < Len(Trace) THEN TRUE ELSE PrintT(<<"@END", l'>>))
Spec == Init /\ [][Next]_l
==========================================================================================
