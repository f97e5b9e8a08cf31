-------------------------------- MODULE JudgeNotation --------------------------------
EXTENDS Notation, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VTRACE)
VARIABLE l
F(name, ok) == IF ok THEN {} ELSE {name}
IsName(g, name) == IF name = ERR THEN g.k = "raise" /\ g.s = ERR ELSE g.k = "str" /\ g.s = name
IsIndex(g, n) == IF n = NONE THEN g.k = "raise" /\ g.s = ERR ELSE g.k = "int" /\ g.n = n
Judge(r) ==
  CASE r.op = "index" -> F("index to move notation", IsName(r.move, MoveName(r.n)))
                         \union F("index to point name", IsName(r.you, PointName(r.n, YOU)) /\ IsName(r.him, PointName(r.n, HIM)))
                         \union F("the two numbers of a point add up to 25", r.n \in 0..23 => r.flip.n = Flip(r.n))
    [] r.op = "name" -> \* 0 and 25 are tolerated in moves
                        F("move notation to index", (r.int /\ r.val \in {0, 25}) \/ IsIndex(r.move, MoveIndex(r.s, r.int, r.val)))
                        \union F("point name to index", IsIndex(r.you, PointIndex(r.s, r.int, r.val, YOU)) /\ IsIndex(r.him, PointIndex(r.s, r.int, r.val, HIM)))
    [] r.op = "opp" -> F("the opponent", IsIndex(r.got, IF r.w \in {YOU, HIM} THEN OppOf(r.w) ELSE NONE))
    [] r.op = "pm" -> F("a partial move prints as source/destination with a star for hits", r.s = StepName(r.pm))
    [] r.op = "mv" -> F("a move prints its steps in order", r.s = MoveText(r.pms) /\ r.n = Len(r.pms))
Init == l = 0
Next == /\ l < Len(Trace)
        /\ LET bad == Judge(Trace[l + 1]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"@BAD", l + 1, bad>>)
        /\ l' = l + 1
        /\ (IF l' < Len(Trace) THEN TRUE ELSE PrintT(<<"@END", l'>>))
Spec == Init /\ [][Next]_l
=====================================================================================
