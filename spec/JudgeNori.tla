------------------------------------- MODULE JudgeNori -----------------------------------
EXTENDS Nori, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VTRACE)
VARIABLE l
F(name, ok) == IF ok THEN {} ELSE {name}
Judge(r) ==
  CASE r.op = "t2k" ->
         F("fails", \A i \in 1..Len(r.ts) : r.got[i] # -1)
         \union F("the number of a position is how many come before it", \A i \in 1..Len(r.ts) : r.got[i] \in {-1, Number(r.ts[i])})
         \union F("the position of that number is the one started from", \A i \in 1..Len(r.ts) : r.got[i] = -1 \/ r.back[i] = r.ts[i])
    [] r.op = "k2t" ->
         F("every number has a position", \A i \in 1..Len(r.ns) : Len(r.got[i]) = 6)
         \union F("the position of a number is the one with so many before it", \A i \in 1..Len(r.ns) : Len(r.got[i]) = 6 =>
                   (\A j \in 1..6 : r.got[i][j] >= 0) /\ Number(r.got[i]) = r.ns[i])
Init == l = 0
Next == /\ l < Len(Trace)
        /\ LET bad == Judge(Trace[l + 1]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"@BAD", l + 1, bad>>)
        /\ l' = l + 1
        /\ (IF l' < Len(Trace) THEN TRUE ELSE PrintT(<<"@END", l'>>))
Spec == Init /\ [][Next]_l
==========================================================================================
