--------------------------------- MODULE JudgeTourney ---------------------------------
EXTENDS Tourney, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VTRACE)
VARIABLES l, st
F(name, ok) == IF ok THEN {} ELSE {name}
\* tables come as sequences of [p, lives, rating]
Names(t) == {t[i].p : i \in 1..Len(t)}
Table(t) == [p \in Names(t) |-> LET i == CHOOSE k \in 1..Len(t) : t[k].p = p IN t[i].lives]
Rating(t, p) == LET i == CHOOSE k \in 1..Len(t) : t[k].p = p IN t[i].rating
Judge(r, s) ==
  IF r.op = "begin" THEN F("everyone starts alive with all lives", r.alive = r.entries /\ r.dead = <<>>)
  ELSE F("a round raises", r.err = "")
       \union F("one life lost per match, half the field playing it out, the dead leaving for good",
                Round(Table(s.alive), Table(s.dead), Table(r.alive), Table(r.dead)))
       \union F("ratings are kept", \A p \in Names(r.alive) \union Names(r.dead) :
                   (p \in Names(s.alive) \union Names(s.dead)) =>
                     (IF p \in Names(r.alive) THEN Rating(r.alive, p) ELSE Rating(r.dead, p)) = (IF p \in Names(s.alive) THEN Rating(s.alive, p) ELSE Rating(s.dead, p)))
       \union F("the field keeps shrinking to one winner", ~r.last \/ Len(r.alive) = 1)
Init == l = 0 /\ st = [alive |-> <<>>, dead |-> <<>>]
Next == /\ l < Len(Trace)
        /\ LET r == Trace[l + 1]  bad == Judge(r, st) IN
             /\ st' = [alive |-> r.alive, dead |-> r.dead]
             /\ (IF bad = {} THEN TRUE ELSE PrintT(<<"@BAD", l + 1, bad>>))
        /\ l' = l + 1
        /\ (IF l' < Len(Trace) THEN TRUE ELSE PrintT(<<"@END", l'>>))
Spec == Init /\ [][Next]_<<l, st>>
======================================================================================
