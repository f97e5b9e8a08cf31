--------------------------------- MODULE GenValues ---------------------------------
(* Histories of Values, simulated by TLC, replayed into the real classes.           *)
EXTENDS Values, TLC, Json
CONSTANTS DEPTH, FIELDS, NVAL
VARIABLES kinds, hist
vars == <<kinds, hist>>
Op(o, i, f, v) == [op |-> o, i |-> i, f |-> f, v |-> v]
Init == kinds = <<>> /\ hist = <<>>
Next == /\ Len(hist) < DEPTH
        /\ \E o \in {"board", "editor", "from", "freeze", "copy", "deepcopy", "set", "set", "del", "act", "ask"},
              i \in 0..Len(kinds) : LET f == RandomElement(FIELDS)  v == RandomElement(0..NVAL) IN     \* sampled, or simulation would enumerate them all
             /\ IF o \in {"board", "editor"} THEN i = 0 /\ Len(kinds) < 7 ELSE i > 0
             /\ o \in {"from", "freeze", "copy", "deepcopy"} => Len(kinds) < 7
             /\ o \in {"freeze", "act"} => kinds[i] = "editor"
             /\ o = "del" => kinds[i] = "board"
             /\ hist' = Append(hist, Op(o, i, f, v))
             /\ kinds' = CASE o = "board" -> Append(kinds, "board") [] o \in {"editor", "from"} -> Append(kinds, "editor")
                           [] o = "freeze" -> Append(kinds, "board") [] o \in {"copy", "deepcopy"} -> Append(kinds, kinds[i])
                           [] OTHER -> kinds
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = DEPTH => PrintT("@@" \o ToJson(hist))
================================================================================
