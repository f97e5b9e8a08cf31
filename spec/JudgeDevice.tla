------------------------------------ MODULE JudgeDevice ----------------------------------
EXTENDS Device, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VTRACE)
VARIABLE l
F(name, ok) == IF ok THEN {} ELSE {name}
R(r) == {r.rgba[i] : i \in 1..Len(r.rgba)}
Judge(r) ==
  IF r.err # "" THEN {"fails: " \o r.err}
  ELSE F("every call is carried out on the canvas, in order and in its place", Carries(r.mt, R(r), r.calls, r.ops))
       \union F("the picture has the size asked for", r.size = r.bound)
       \union F("an em is the width of the letter m", r.em = TextW(r.mt, 1, 10))
Init == l = 0
Next == /\ l < Len(Trace)
        /\ LET bad == Judge(Trace[l + 1]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"@BAD", l + 1, bad>>)
        /\ l' = l + 1
        /\ (IF l' < Len(Trace) THEN TRUE ELSE PrintT(<<"@END", l'>>))
Spec == Init /\ [][Next]_l
==========================================================================================
