------------------------------------ MODULE JudgeStyle -----------------------------------
EXTENDS Style, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VTRACE)
VARIABLE l
F(name, ok) == IF ok THEN {} ELSE {name}
\* own attributes come with a filler so that the record is never empty
Own(o) == [a \in DOMAIN o \ {"_"} |-> o[a]]
TreeOf(r) == [kind |-> r.kind, par |-> r.par, data |-> r.data, own |-> [i \in 1..Len(r.own) |-> Own(r.own[i])], ok |-> TRUE]
Seen(r, t) == \A i \in 1..Len(r.kind) : \A a \in DOMAIN r.seen[i] : r.seen[i][a] = Value(t, i, a)
Sheet(r) ==
  LET t == ApplySheet(TreeOf(r), r.dir, r.rules) IN
  IF t.ok THEN (IF r.err # "" THEN {"a valid sheet is refused: " \o r.err} ELSE F("attributes are those the matching rules and inheritance give", Seen(r, t)))
  ELSE F("a value of the wrong type or an unknown attribute is refused", r.err # "")
\* attributes set one after another on elements of a tree
RECURSIVE Sets(_, _, _)
Sets(t, ss, k) ==
  IF k > Len(ss) THEN {}
  ELSE LET s == ss[k]
           as == AttrsOf(t.kind[s.i])
           okay == s.a \in DOMAIN as /\ Settable(as[s.a], s.ty, s.v)
           t2 == IF okay THEN [t EXCEPT !.own[s.i] = Put(@, s.a, s.ty \o ":" \o s.v)] ELSE t
       IN F("a value of the right type is accepted, another refused", s.refused = ~okay)
          \union F("attributes read back what was set, inherited or default", \A i \in 1..Len(t.kind) : s.got[i] = Value(t2, i, s.a))
          \union Sets(t2, ss, k + 1)
Judge(r) ==
  CASE r.op = "sheet" -> Sheet(r)
    [] r.op = "set" -> (IF r.err # "" THEN {"fails: " \o r.err} ELSE Sets(TreeOf(r), r.sets, 1))
    [] r.op = "append" -> F("an element takes exactly the content its type declares", r.ok = (r.child \in ContentOf(r.parent)))
    [] r.op = "dtd" -> F("the DTD declares every element with its content", {r.content[i][1] : i \in 1..Len(r.content)} = Kinds
                          /\ \A i \in 1..Len(r.content) : {r.content[i][2][j] : j \in 1..Len(r.content[i][2])} = ContentOf(r.content[i][1]))
                       \union F("the DTD declares every attribute", \A i \in 1..Len(r.attrs) : {r.attrs[i][2][j] : j \in 1..Len(r.attrs[i][2])} = DOMAIN AttrsOf(r.attrs[i][1]))
Init == l = 0
Next == /\ l < Len(Trace)
        /\ LET bad == Judge(Trace[l + 1]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"@BAD", l + 1, bad>>)
        /\ l' = l + 1
        /\ (IF l' < Len(Trace) THEN TRUE ELSE PrintT(<<"@END", l'>>))
Spec == Init /\ [][Next]_l
==========================================================================================
