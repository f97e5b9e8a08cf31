---------------------------------- MODULE Bearoff ----------------------------------
(* One-sided bear-off indexing of GNU Backgammon, bear-off parameters and the      *)
(* record files: pure definitions.                                                 *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE Choose(_, _)
Choose(n, r) == IF r < 0 \/ r > n THEN 0 ELSE IF r = 0 \/ r = n THEN 1 ELSE (Choose(n - 1, r - 1) * n) \div r
\* a position with p points and k chequers is a set of p places among p+k: from the highest place down, each point
\* is a one followed by a zero for every chequer on it
Ones(t, p) == LET k == SumSeq(SubSeq(t, 1, p))
              IN {p - 1 + k} \union {p - 1 + k - (SumSeq(SubSeq(t, 1, i)) + i) : i \in 1..p-1}
\* rank among the sets of p places, in increasing order of the number they spell in binary (combinatorial number system)
RECURSIVE RankOf(_, _)
RankOf(S, j) == IF S = {} THEN 0
                ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN Choose(m, j) + RankOf(S \ {m}, j + 1)
Index(t, p) == RankOf(Ones(t, p), 1)
\* farthest occupied point (1..), 0 for an empty side
Far(s) == IF \E i \in 1..Len(s) : s[i] > 0 THEN CHOOSE i \in 1..Len(s) : s[i] > 0 /\ \A j \in i+1..Len(s) : s[j] = 0 ELSE 0
Max(a, b) == IF a > b THEN a ELSE b
Param(a, b) == <<Max(Far(a), Far(b)), Max(SumSeq(a), SumSeq(b))>>
\* record n (from 0) of a file of records of dl bytes
Inside(data, dl, n) == (n + 1) * dl <= Len(data)
Record(data, dl, n) == SubSeq(data, n * dl + 1, (n + 1) * dl)
================================================================================
