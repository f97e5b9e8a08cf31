-------------------------------- MODULE JudgeValues --------------------------------
EXTENDS Values, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VTRACE)
VARIABLES l, st
F(name, ok) == IF ok THEN {} ELSE {name}
Dom(s) == IF s = <<>> THEN <<>> ELSE s
Expect(s, r) ==
  CASE r.op = "board" -> NewBoard(s, r.kw, r.dflt)
    [] r.op = "editor" -> NewEditor(s, r.kw, r.dflt)
    [] r.op = "from" -> EditorOf(s, r.i, r.kw)
    [] r.op = "freeze" -> Freeze(s, r.i)
    [] r.op \in {"copy", "deepcopy"} -> CopyOf(s, r.i)
    [] r.op = "set" -> Set(s, r.i, r.kw)
    [] r.op \in {"del", "ask"} -> s
    [] r.op = "act" -> Edit(s, r.i, r.vals[r.i])
Refusal(s, r) == r.op \in {"set", "del"} /\ s[r.i].kind = "board"
Pairs(s) == {<<i, j>> \in (1..Len(s)) \X (1..Len(s)) : s[i].kind = "board" /\ s[j].kind = "board"}
Judge(s, r) ==
  LET e == Expect(s, r) IN
  F("changing a board is refused, everything else is not", r.refused = Refusal(s, r))
  \union (IF Len(r.vals) # Len(e) THEN {"an object is missing"}
          ELSE F("only the object acted on changes, and as asked (" \o r.op \o ")", \A i \in 1..Len(e) : r.vals[i] = e[i].val)
               \union F("the kinds of objects made", \A i \in 1..Len(e) : r.kinds[i] = e[i].kind)
               \union F("two boards are equal exactly when all fields are", \A p \in Pairs(e) : r.eq[p[1]][p[2]] = (r.vals[p[1]] = r.vals[p[2]]))
               \union F("inequality is the negation of equality", \A p \in Pairs(e) : r.ne[p[1]][p[2]] = ~(r.vals[p[1]] = r.vals[p[2]]))
               \union F("equal boards are the same dictionary key", \A p \in Pairs(e) : r.key[p[1]][p[2]] = (r.vals[p[1]] = r.vals[p[2]])))
Init == l = 0 /\ st = <<>>
Next == /\ l < Len(Trace)
        /\ LET r == Trace[l + 1]  s == IF r.first THEN <<>> ELSE st  bad == Judge(s, r) IN
             /\ st' = [i \in 1..Len(r.vals) |-> [kind |-> r.kinds[i], val |-> r.vals[i]]]
             /\ (IF bad = {} THEN TRUE ELSE PrintT(<<"@BAD", l + 1, bad>>))
        /\ l' = l + 1
        /\ (IF l' < Len(Trace) THEN TRUE ELSE PrintT(<<"@END", l'>>))
Spec == Init /\ [][Next]_<<l, st>>
================================================================================
