------------------------------------ MODULE JudgeReport ----------------------------------
EXTENDS Report, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VTRACE)
VARIABLE l
F(name, ok) == IF ok THEN {} ELSE {name}
Judge(r) ==
  IF r.err # "" THEN {"fails: " \o r.err}
  ELSE F("only well-formed markup", r.bad = <<>>)
       \union F("as many tables as the analyses need", Len(r.tables) = Len(AllTables(r.as)))
       \union F("each table shows its rows, in order, with the numbers of the analysis", r.tables = AllTables(r.as))
       \union F("the analysis asked for is that of the position and match written", r.asked = r.ids)
       \union F("the text around the tables stays", r.around = r.words)
       \union F("asking again gives the same page", r.again)
Init == l = 0
Next == /\ l < Len(Trace)
        /\ LET bad == Judge(Trace[l + 1]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"@BAD", l + 1, bad>>)
        /\ l' = l + 1
        /\ (IF l' < Len(Trace) THEN TRUE ELSE PrintT(<<"@END", l'>>))
Spec == Init /\ [][Next]_l
==========================================================================================
