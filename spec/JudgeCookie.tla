----------------------------- MODULE JudgeCookie ------------------------------
(* Every line of a recorded session against Cookie; st is the phase of each of  *)
(* the classifiers running side by side.                                        *)
EXTENDS Cookie, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VTRACE)
VARIABLES l, st
R == Trace[l]
SeqSet(s) == {s[i] : i \in 1..Len(s)}
Line == [login |-> SeqSet(R.m.login), motd |-> SeqSet(R.m.motd), run |-> SeqSet(R.m.run), empty |-> R.text = ""]
Bad(ph) == IF R.cookie \in May(ph, Line) THEN {}
           ELSE {"line gets a cookie whose pattern it does not match in phase " \o ph}
Init == l = 1 /\ st = <<"login", "login">>
Next ==
  /\ l <= Len(Trace)
  /\ LET s0 == IF R.first THEN <<"login", "login">> ELSE st
         ph == s0[R.who]
         bad == Bad(ph)
         \* after a wrong cookie, follow the phase a right one leads to
         ck == IF bad = {} THEN R.cookie ELSE CHOOSE c \in May(ph, Line) : TRUE
     IN /\ (IF bad = {} THEN TRUE ELSE PrintT(<<"@BAD", l, bad>>))
        /\ st' = [s0 EXCEPT ![R.who] = After(ph, ck)]
  /\ (IF l = Len(Trace) THEN PrintT(<<"@END", l>>) ELSE TRUE)
  /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, st>>
=============================================================================
