--------------------------------------- MODULE Nori --------------------------------------
(* The author's own numbering of the positions of one side's home board (any number of     *)
(* chequers): by the number of chequers, then by the farthest point on which two positions *)
(* differ, fewer chequers there coming first.                                              *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE Choose(_, _)
Choose(n, r) == IF r < 0 \/ r > n THEN 0 ELSE IF r = 0 \/ r = n THEN 1 ELSE (Choose(n - 1, r - 1) * n) \div r
\* ways to put c chequers on p points
Ways(p, c) == IF p = 0 THEN (IF c = 0 THEN 1 ELSE 0) ELSE Choose(p + c - 1, c)
Upto(p, c) == IF c < 0 THEN 0 ELSE Choose(p + c, p)
Before(t, u) == \/ SumSeq(t) < SumSeq(u)
                \/ /\ SumSeq(t) = SumSeq(u)
                   /\ \E i \in 1..Len(t) : t[i] < u[i] /\ \A j \in i+1..Len(t) : t[j] = u[j]
\* positions of the same number of chequers that come before
RECURSIVE Lower(_, _)
RECURSIVE Add(_, _, _)
Add(p, c, n) == IF n = 0 THEN 0 ELSE Ways(p - 1, c - (n - 1)) + Add(p, c, n - 1)
Lower(t, p) == IF p <= 1 THEN 0 ELSE LET c == SumSeq(SubSeq(t, 1, p)) IN Add(p, c, t[p]) + Lower(t, p - 1)
Number(t) == Upto(Len(t), SumSeq(t) - 1) + Lower(t, Len(t))
==========================================================================================
