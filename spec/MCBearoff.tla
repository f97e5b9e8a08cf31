--------------------------------- MODULE MCBearoff ---------------------------------
(* Index is one-to-one onto 0 .. C(p+c,p)-1 whatever bound c on the chequers: the   *)
(* positions with at most c chequers are exactly the first C(p+c,p) numbers.        *)
EXTENDS Bearoff, TLC
CONSTANTS MAXP, MAXC
VARIABLES p, c
Init == p \in 1..MAXP /\ c \in 0..MAXC
Next == UNCHANGED <<p, c>>
Spec == Init /\ [][Next]_<<p, c>>
All == {t \in [1..p -> 0..c] : SumSeq([i \in 1..p |-> t[i]]) <= c}
Bijective == {Index(t, p) : t \in All} = 0 .. Choose(p + c, p) - 1 /\ Cardinality(All) = Choose(p + c, p)
\* one more chequer on a point always comes later than any position with fewer chequers
EmptyFirst == Index([i \in 1..p |-> 0], p) = 0
================================================================================
