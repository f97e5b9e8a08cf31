------------------------------------ MODULE MCSnowie ------------------------------------
(* The line-by-line reader accepts exactly the declared language, and games partition    *)
(* the lines of a record.                                                                *)
EXTENDS Snowie, TLC, FiniteSets
CONSTANTS MaxLen, MaxMove
VARIABLES ls, s, ok
vars == <<ls, s, ok>>
Line == [k : {"length", "game", "player", "result", "blank", "bad"}, n : {0}] \union [k : {"move"}, n : 1..MaxMove]
WithT(x, i) == [k |-> x.k, n |-> x.n, t |-> i]
Init == ls = <<>> /\ s = Start /\ ok = TRUE
Next == /\ ok /\ Len(ls) < MaxLen
        /\ \E x \in Line : /\ ls' = Append(ls, WithT(x, Len(ls) + 1))
                           /\ ok' = (Verdict(s, x.k, x.n) = "yes")
                           /\ s' = After(s, x.k, x.n)
Spec == Init /\ [][Next]_vars
Agree == LET r == Read(ls, 1, Start, 0)
         IN /\ (r.refuse = 0 /\ r.open = 0) = WellFormed(ls)
            /\ ok = WellFormed(ls)
Reached == ok => s.n <= Len(ls)
RECURSIVE Flat(_)
Flat(g) == IF g = <<>> THEN <<>> ELSE Head(g) \o Flat(Tail(g))
Partition == ok => LET g == Games(ls, <<>>)
                       body == SelectSeq(ls, LAMBDA x : x.k \notin {"length", "blank"})
                   IN /\ Flat(g) = [i \in 1..Len(body) |-> body[i].t]
                      /\ \A i \in 1..Len(g) : ls[g[i][1]].k = "game"
                      /\ Len(g) = Cardinality({i \in 1..Len(ls) : ls[i].k = "game"})
=========================================================================================
