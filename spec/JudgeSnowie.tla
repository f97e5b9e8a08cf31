----------------------------------- MODULE JudgeSnowie -----------------------------------
EXTENDS Snowie, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VTRACE)
VARIABLE l
F(name, ok) == IF ok THEN {} ELSE {name}
RECURSIVE Total(_)
Total(ls) == IF ls = <<>> THEN 0 ELSE Head(ls).size + Total(Tail(ls))
\* first line at which the total passes (reaches) the limit
Over(ls, max) == LET c == {i \in 1..Len(ls) : Total(SubSeq(ls, 1, i)) > max} IN IF max = 0 \/ c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : i <= j
Reach(ls, max) == LET c == {i \in 1..Len(ls) : Total(SubSeq(ls, 1, i)) >= max} IN IF max = 0 \/ c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : i <= j
Min0(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a ELSE IF a < b THEN a ELSE b
\* r.got = number of the line refused, 0 if the whole record was accepted
Validate(r) ==
  LET d == Read(r.lines, 1, Start, 0)
      must == Min0(d.refuse, Over(r.lines, r.max))
      may == Min0(d.open, Reach(r.lines, r.max))
  IN F("a refusal is a ValueError", r.got = 0 \/ r.err = "ValueError")
     \union F("a line that does not belong is refused", must = 0 \/ (r.got # 0 /\ r.got <= must))
     \union F("a well-formed record is accepted", r.got = 0 \/ r.got = must \/ (may # 0 /\ r.got >= may))
     \union F("the digest is that of the lines fed", r.got # 0 \/ r.digest = r.want)
Chop(r) ==
  LET d == Read(r.lines, 1, Start, 0)
      g == Games(r.lines, <<>>)
  IN IF d.open # 0 /\ (d.refuse = 0 \/ d.open < d.refuse) THEN {}
     ELSE IF d.refuse # 0 THEN F("splitting a malformed record is refused", r.err = "ValueError")
     ELSE F("a well-formed record is split: " \o r.err, r.err = "")
          \union F("the games come complete and in order", r.err # "" \/ r.games = g)
          \union F("every game is headed by the match length", r.err # "" \/ \A i \in 1..Len(r.heads) : r.heads[i] = r.lines[1].t)
Judge(r) == IF r.op = "validate" THEN Validate(r) ELSE Chop(r)
Init == l = 0
Next == /\ l < Len(Trace)
        /\ LET bad == Judge(Trace[l + 1]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"@BAD", l + 1, bad>>)
        /\ l' = l + 1
        /\ (IF l' < Len(Trace) THEN TRUE ELSE PrintT(<<"@END", l'>>))
Spec == Init /\ [][Next]_l
==========================================================================================
