---------------------------------- MODULE Values ----------------------------------
(* Boards are values, editors are variables: a store of objects, each holding the   *)
(* twelve fields.  Every operation adds one object or changes one editor.           *)
EXTENDS Integers, Sequences, FiniteSets
\* an object: [kind |-> "board" or "editor", val |-> fields]
Obj(k, v) == [kind |-> k, val |-> v]
Override(v, kw) == [f \in DOMAIN v |-> IF f \in DOMAIN kw THEN kw[f] ELSE v[f]]
NewBoard(s, kw, dflt)  == Append(s, Obj("board", Override(dflt, kw)))
NewEditor(s, kw, dflt) == Append(s, Obj("editor", Override(dflt, kw)))
EditorOf(s, i, kw)  == Append(s, Obj("editor", Override(s[i].val, kw)))
Freeze(s, i)    == Append(s, Obj("board", s[i].val))
CopyOf(s, i)    == Append(s, s[i])
CanSet(s, i)    == s[i].kind = "editor"
Set(s, i, kw)   == IF CanSet(s, i) THEN [s EXCEPT ![i].val = Override(@, kw)] ELSE s
\* an editing action (a move, a flip, a double ...) with whatever effect on its own editor
Edit(s, i, v)   == [s EXCEPT ![i].val = v]
Same(a, b)      == a.val = b.val
================================================================================
