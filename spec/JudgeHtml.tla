------------------------------------ MODULE JudgeHtml ------------------------------------
EXTENDS Html, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VTRACE)
VARIABLE l
Range(s) == {s[i] : i \in 1..Len(s)}
F(name, ok) == IF ok THEN {} ELSE {name}
Judge(r) ==
  IF r.err # "" THEN {"fails: " \o r.err}
  ELSE CASE r.op = "text" ->
         F("escaping is undone by unescaping", Unescape(r.esc) = r.s)
         \union F("escaped text has no markup", NoMarkup(r.esc))
         \union F("normal form: one line per tag", r.norm = Normal(r.s))
         \union F("normalising is idempotent", r.norm2 = r.norm)
         \union F("normalising keeps all but line breaks", Visible(r.norm) = Visible(r.s))
       [] r.op = "pair" ->
         F("equal exactly when the normal forms are", r.same = SameHtml(r.a, r.b))
         \union F("comparing is symmetric", r.rsame = r.same)
         \union F("a document equals itself", r.self)
       [] r.op = "docs" ->
         F("compared as sequences of tags and texts", r.same = SameDoc(r.a, r.b))
         \union F("comparing is symmetric", r.rsame = r.same)
         \* as tuples: the order of several attributes is left open
         \union F("equal tuples are equal documents", r.tupself /\ (r.tup => SameDoc(r.a, r.b)))
         \union F("equal documents are equal tuples", SameDoc(r.a, r.b) /\ (\A i \in 1..Len(r.a) : Len(r.a[i].at) <= 1) => r.tup)
         \union F("the attributes of a tag are those written", \A i \in 1..Len(r.a) : r.attrs[i] = r.a[i].at /\ Len(r.dicts[i]) = Len(r.a[i].at) /\ Range(r.dicts[i]) = Range(r.a[i].at))
       [] r.op = "fragment" -> F("accepted exactly when balanced", r.ok = Closed(r.tags, <<>>))
Init == l = 0
Next == /\ l < Len(Trace)
        /\ LET bad == Judge(Trace[l + 1]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"@BAD", l + 1, bad>>)
        /\ l' = l + 1
        /\ (IF l' < Len(Trace) THEN TRUE ELSE PrintT(<<"@END", l'>>))
Spec == Init /\ [][Next]_l
==========================================================================================
