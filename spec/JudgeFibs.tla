---------------------------------- MODULE JudgeFibs ----------------------------------
(* Each record: a line (its fields), what a real editor held after decoding it, twice *)
(* from different earlier contents.                                                   *)
EXTENDS Fibs, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VTRACE)
VARIABLE l
F(name, ok) == IF ok THEN {} ELSE {name}
Fields == {"position", "cube_in_logarithm", "cube_owner", "crawford", "on_action", "on_inner_action", "rolled", "game_state", "doubled",
           "resign_offer", "match_length", "score"}
Judge(r) ==
  IF r.err # "" THEN {"decoding a well-formed line raises " \o r.err}
  ELSE LET e == Decode(r.f) IN UNION {F("decoded " \o k, r.got[k] = e[k]) : k \in Fields}
Init == l = 0
Next == /\ l < Len(Trace)
        /\ LET bad == Judge(Trace[l + 1]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"@BAD", l + 1, bad>>)
        /\ l' = l + 1
        /\ (IF l' < Len(Trace) THEN TRUE ELSE PrintT(<<"@END", l'>>))
Spec == Init /\ [][Next]_l
================================================================================
