-------------------------------- MODULE JudgeDbByte --------------------------------
EXTENDS DbByte, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VTRACE)
VARIABLE l
F(name, ok) == IF ok THEN {} ELSE {name}
Judge(r) ==
  IF r.op = "db" THEN
    F("the encoding is 26 bytes", r.size = 26)
    \union F("the bytes describe the position from the side on action", r.signed = Encode(r.board))
    \union F("decoding the encoded board gives it back", r.back = r.board /\ r.equal)
    \union F("decoding the bytes gives the sides back", r.dec = DecodePair(Encode(r.board)))
    \union F("encoding again gives the same bytes", r.reenc)
    \union F("the other fields are kept", r.rest)
    \union F("the encoded form cannot be modified", r.mutated = <<>> /\ r.same)
  ELSE
    UNION {F("the distance is the sum of squared differences",
             \A j \in 1..Len(r.codes) : r.dist[i][j] = Dist(Encode(r.boards[i]), Encode(r.boards[j]))) : i \in 1..Len(r.codes)}
    \union F("positions share their bytes exactly when they look the same from the side on action",
             \A i, j \in 1..Len(r.codes) : r.eq[i][j] = (Mover(r.boards[i]) = Mover(r.boards[j]) /\ Waiter(r.boards[i]) = Waiter(r.boards[j])))
Init == l = 0
Next == /\ l < Len(Trace)
        /\ LET bad == Judge(Trace[l + 1]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"@BAD", l + 1, bad>>)
        /\ l' = l + 1
        /\ (IF l' < Len(Trace) THEN TRUE ELSE PrintT(<<"@END", l'>>))
Spec == Init /\ [][Next]_l
================================================================================
