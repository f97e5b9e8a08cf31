----------------------------------- MODULE MCDoctree -----------------------------------
(* Every editing history (bounded): the document stays one tree in document order.       *)
EXTENDS Doctree, TLC
CONSTANTS MaxNodes, Use
VARIABLES d, last
vars == <<d, last>>
Init == d = Empty /\ last = "start"
Enter == Size(d) < MaxNodes /\ \E k \in Use : d' = DoEnter(d, k) /\ last' = "enter"
App == Size(d) < MaxNodes /\ \E k \in Use : d' = DoAppend(d, k) /\ last' = "append"
Leave == \E k \in Use \union {"Box", "Line", "Span"} : d' = DoLeave(d, {k}) /\ last' = "leave"
Text == Size(d) < MaxNodes /\ d' = DoText(d, "x") /\ (\A n \in 1..Size(d') : d'.txt[n] \in {"", "x"}) /\ last' = "text"
Done == d' = DoDone(d) /\ last' = "done"
Next == Enter \/ App \/ Leave \/ Text \/ Done
Spec == Init /\ [][Next]_vars
Tree == WellFormed(d) /\ InOrder(d) /\ Allowed(d)
\* the position is an ancestor of the newest node, so what comes next is last in document order
RECURSIVE Up(_, _)
Up(e, n) == IF n = 0 THEN {} ELSE {n} \union Up(e, e.par[n])
Frontier == d.cur \in Up(d, Size(d))
\* nothing already in the tree is lost or moved
Kept == [][/\ Size(d') >= Size(d)
           /\ \A n \in 1..Size(d) : /\ d'.kind[n] = d.kind[n] /\ d'.par[n] = d.par[n]
                                    /\ SubSeq(d'.kids[n], 1, Len(d.kids[n])) = d.kids[n]]_vars
Nest == \A K \in {{"Box"}, {"Span"}, {"List"}} : Nesting(d, K) = Cardinality({n \in Up(d, d.cur) : Is(d.kind[n], K)})
========================================================================================
