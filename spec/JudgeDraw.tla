------------------------------------- MODULE JudgeDraw -----------------------------------
EXTENDS Draw, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VTRACE)
VARIABLE l
F(name, ok) == IF ok THEN {} ELSE {name}
Rec(c) == [c EXCEPT !.pts = {@[i] : i \in 1..Len(@)}]
Near(a, b) == Abs(a - b) <= 1
Plain(c) == [c EXCEPT !.f = "", !.k = IF c.c = "text" \/ @ = "" THEN @ ELSE "fill"]   \* what the plain drawing tells of a call
Judge(r) ==
  LET calls == [i \in 1..Len(r.calls) |-> Rec(r.calls[i])]
      m == Mag(r.es[1].w, r.es[1].h, r.bound[1], r.bound[2])
      want == Wanted(m, r.es, 1)
      gist == [i \in 1..Len(want) |-> Gist(want[i])]
      got == [i \in 1..Len(calls) |-> Gist(calls[i])]
      \* dots of one colour may come in any order, so their gists are equal anyway
  IN IF r.err # "" THEN {"drawing fails: " \o r.err}
     ELSE F("each element puts down what it stands for, in this order", gist = got)
     \union F("and it is where and as big as the style says, scaled by one factor", gist # got \/ ~r.exact \/ Draws(m, r.es, 1, calls, 1))
     \* sizes for which the factor is no binary fraction: the same but for rounding
     \union F("backgrounds and single images are scaled by one factor, but for rounding",
              gist # got \/ r.exact \/ \A i \in 1..Len(want) : want[i].c = "rect" => Near(want[i].x, calls[i].x) /\ Near(want[i].y, calls[i].y) /\ Near(want[i].w, calls[i].w) /\ Near(want[i].h, calls[i].h))
     \union F("the board fits in the picture", \A i \in 1..Len(calls) : (calls[i].c = "rect" /\ i = 1 /\ r.es[1].back # "") => calls[i].w <= r.bound[1] /\ calls[i].h <= r.bound[2]
                                                  /\ (Near(calls[i].w, r.bound[1]) \/ Near(calls[i].h, r.bound[2])))
     \union F("the plain drawing has the same calls", [i \in 1..Len(r.plain) |-> Rec(r.plain[i])] = [i \in 1..Len(calls) |-> Plain(calls[i])])
Init == l = 0
Next == /\ l < Len(Trace)
        /\ LET bad == Judge(Trace[l + 1]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"@BAD", l + 1, bad>>)
        /\ l' = l + 1
        /\ (IF l' < Len(Trace) THEN TRUE ELSE PrintT(<<"@END", l'>>))
Spec == Init /\ [][Next]_l
==========================================================================================
