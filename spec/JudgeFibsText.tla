------------------------------- MODULE JudgeFibsText -------------------------------
EXTENDS FibsText, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VTRACE)
VARIABLE l
F(name, ok) == IF ok THEN {} ELSE {name}
Judge(r) ==
  IF r.err # "" THEN {"reading a " \o r.kind \o " message raises"}
  ELSE CASE r.kind = "dice" -> F("dice", r.nums = Numbers(r.chars, <<>>))
         [] r.kind = "name" -> F("player name", r.name = Name(r.chars))
         [] r.kind = "taker" -> F("name of the player who accepts", r.name = Taker(r.chars))
         [] r.kind = "match" -> F("match scores", r.nums = Numbers(r.chars, <<>>))
         [] r.kind \in {"score", "resign"} -> F("points", r.nums = <<Numbers(r.chars, <<>>)[1]>>)
         [] r.kind = "moves" -> F("partial moves", r.pms = Moves(r.chars, r.who))
Init == l = 0
Next == /\ l < Len(Trace)
        /\ LET bad == Judge(Trace[l + 1]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"@BAD", l + 1, bad>>)
        /\ l' = l + 1
        /\ (IF l' < Len(Trace) THEN TRUE ELSE PrintT(<<"@END", l'>>))
Spec == Init /\ [][Next]_l
================================================================================
