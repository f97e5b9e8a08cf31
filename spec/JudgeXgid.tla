--------------------------------- MODULE JudgeXgid ---------------------------------
EXTENDS Xgid, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VTRACE)
VARIABLE l
F(name, ok) == IF ok THEN {} ELSE {name}
Fields == {"position", "cube_in_logarithm", "cube_owner", "crawford", "on_action", "on_inner_action", "rolled", "game_state", "doubled",
           "resign_offer", "match_length", "score"}
Judge(r) ==
  IF WellFormed(r.f)
  THEN IF r.kind # "" THEN {"a well-formed XGID is refused: " \o r.err}
       ELSE LET e == DecodeOk(r.f) IN UNION {F("decoded " \o k, r.got[k] = e[k]) : k \in Fields}
  ELSE F("a malformed XGID is refused with a decoding error", r.kind = "documented")
Init == l = 0
Next == /\ l < Len(Trace)
        /\ LET bad == Judge(Trace[l + 1]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"@BAD", l + 1, bad>>)
        /\ l' = l + 1
        /\ (IF l' < Len(Trace) THEN TRUE ELSE PrintT(<<"@END", l'>>))
Spec == Init /\ [][Next]_l
================================================================================
