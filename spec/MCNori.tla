-------------------------------------- MODULE MCNori -------------------------------------
(* The number of a position is how many come before it, so the numbering has no gaps,      *)
(* gives no number twice and does not depend on how many chequers there may be.            *)
EXTENDS Nori, TLC
CONSTANTS MAXP, MAXC
VARIABLES p, c
Init == p \in 1..MAXP /\ c \in 0..MAXC
Next == UNCHANGED <<p, c>>
Spec == Init /\ [][Next]_<<p, c>>
All == {t \in [1..p -> 0..c] : SumSeq([i \in 1..p |-> t[i]]) <= c}
S(t) == [i \in 1..p |-> t[i]]
Counts == \A t \in All : Number(S(t)) = Cardinality({u \in All : Before(S(u), S(t))})
NoGaps == {Number(S(t)) : t \in All} = 0 .. Upto(p, c) - 1
Total == \A t, u \in All : (t = u) = (~Before(S(t), S(u)) /\ ~Before(S(u), S(t)))
==========================================================================================
