---------------------------------- MODULE JudgePicTree -----------------------------------
EXTENDS PicTree, Json, IOUtils
S == INSTANCE Style
Trace == ndJsonDeserialize(IOEnv.VTRACE)
VARIABLE l
F(name, ok) == IF ok THEN {} ELSE {name}
Conforms(cs) == \A i \in 1..Len(cs) : cs[i][2] \in S!ContentOf(cs[i][1])
\* one element tree that is given one board after another
Judge(r) ==
  LET b == r.board IN
  IF Refused(b) THEN F("a board that cannot be pictured is refused", r.err = "AssertionError")
  ELSE IF r.err # "" THEN {"a board is refused: " \o r.err}
  ELSE LET want == Items(b, 15)
           bad == SelectSeq(want, LAMBDA x : Count(want, x) # Count(r.items, x)) IN
       F("the tree shows the board", bad = <<>>) \union F("the tree shows nothing but the board", Len(want) = Len(r.items))
       \union F("the printed tree shows the board", SameBag(want, r.printed))
       \union F("the player to act is named", Pending(b) \/ r.actor = Actor(b))
       \union F("the frame is one of two players and their points", r.frame = <<"bar:him", "bar:you", "field:him", "field:you", "home:him", "home:you">> /\ r.points = [i \in 1..24 |-> ToString(i)]
                 /\ r.parity = [i \in 1..24 |-> IF i % 2 = 1 THEN "odd" ELSE "even"])
       \union F("every element is allowed where it is", Conforms(r.pairs) /\ Conforms(r.printedpairs))
       \union F("the printed tree names its document type", r.doctype)
Init == l = 0
Next == /\ l < Len(Trace)
        /\ LET bad == Judge(Trace[l + 1]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"@BAD", l + 1, bad>>)
        /\ l' = l + 1
        /\ (IF l' < Len(Trace) THEN TRUE ELSE PrintT(<<"@END", l'>>))
Spec == Init /\ [][Next]_l
==========================================================================================
