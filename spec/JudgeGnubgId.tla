-------------------------------- MODULE JudgeGnubgId --------------------------------
EXTENDS GnubgId, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VTRACE)
VARIABLE l
F(name, ok) == IF ok THEN {} ELSE {name}
Judge(r) ==
  CASE r.op = "encode" ->
         F("encoding raises", r.pid # <<>> /\ r.same)
         \union F("position id follows the published layout (14 characters)", r.pid = BoardPid(r.board))
         \union F("match id follows the published layout", r.mid = MatchId(r.board))
         \union (IF Inconsistent(r.board) THEN F("a money game with a score is refused as inconsistent", r.err = "inconsistent")
                 ELSE F("decoding the ids gives back the board", r.err = "" /\ r.back = r.board))
         \union F("a position id decodes to the position it encodes", r.pos = Sides(r.board.position, r.board.on_action) /\ r.again)
    [] r.op = "decode" ->
         (IF Inconsistent(Match(Bits(r.mid, 9))) THEN F("a money game with a score is refused as inconsistent", r.err = "inconsistent")
          ELSE F("ids decode to the board their bits describe", r.err = "" /\ r.back = Decode(r.pid, r.mid)))
    [] r.op = "pids" -> F("different positions get different ids", \A i, j \in 1..Len(r.ps) : r.eq[i][j] = (r.ps[i] = r.ps[j]))
Init == l = 0
Next == /\ l < Len(Trace)
        /\ LET bad == Judge(Trace[l + 1]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"@BAD", l + 1, bad>>)
        /\ l' = l + 1
        /\ (IF l' < Len(Trace) THEN TRUE ELSE PrintT(<<"@END", l'>>))
Spec == Init /\ [][Next]_l
================================================================================
