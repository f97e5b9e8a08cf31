---------------------------------- MODULE JudgeDoctree ----------------------------------
(* Each record is one editor operation with the tree seen afterwards; the tree before is  *)
(* the one of the record before it.                                                      *)
EXTENDS Doctree, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VTRACE)
VARIABLE l
F(name, ok) == IF ok THEN {} ELSE {name}
ToSet(s) == {s[i] : i \in 1..Len(s)}
Doc(r) == [kind |-> r.doc.kind, par |-> r.doc.par, kids |-> r.doc.kids, txt |-> r.doc.txt, cur |-> r.doc.cur]
Expected(r, d) ==
  CASE r.op = "begin" -> Empty
    [] r.op = "enter" -> DoEnter(d, r.k)
    [] r.op = "append" -> DoAppend(d, r.k)
    [] r.op = "leave" -> DoLeave(d, ToSet(r.ks))
    [] r.op = "text" -> DoText(d, r.t)
    [] r.op = "done" -> DoDone(d)
    [] r.op = "remove" -> DoRemove(d, r.n)
    [] OTHER -> d
Judge(r, d) ==
  IF r.err # "" THEN {"an editing operation fails: " \o r.err}
  ELSE LET e == Expected(r, d)  o == Doc(r)
       IN IF Len(o.kind) # Size(e) THEN {"the document has the nodes that were added"}
          ELSE F("every node keeps its kind and text", o.kind = e.kind /\ o.txt = e.txt)
               \union F("every node is under the element it was put in, in the order added", o.kids = e.kids)
               \union F("a node's recorded parent is the element containing it", o.par = e.par)
               \union F("the position is the element expected", o.cur = e.cur)
               \union F("a visitor meets every node in document order", o.kids # e.kids \/ r.walk = Walk(e, 1))
               \union F("nesting count", r.op # "count" \/ r.res = Nesting(e, ToSet(r.ks)))
               \union F("nearest enclosing element", r.op # "ancestor" \/ r.res = Anc(e, ToSet(r.ks)))
               \union F("visiting from the position visits its subtree", r.op # "accept" \/ r.sub = Walk(e, e.cur))
Init == l = 0
Next == /\ l < Len(Trace)
        /\ LET bad == Judge(Trace[l + 1], IF Trace[l + 1].op = "begin" THEN Empty ELSE Doc(Trace[l]))
           IN IF bad = {} THEN TRUE ELSE PrintT(<<"@BAD", l + 1, bad>>)
        /\ l' = l + 1
        /\ (IF l' < Len(Trace) THEN TRUE ELSE PrintT(<<"@END", l'>>))
Spec == Init /\ [][Next]_l
==========================================================================================
