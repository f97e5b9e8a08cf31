----------------------------------- MODULE Tourney -----------------------------------
(* A knockout with lives.  A player is a name with lives and a rating; a state is the *)
(* pair of tables alive, dead: name -> lives.                                         *)
EXTENDS Integers, FiniteSets, Sequences
\* the possible results of a round: the set of its losers
Losers(alive) == {L \in SUBSET DOMAIN alive : Cardinality(L) = Cardinality(DOMAIN alive) \div 2}
\* (any set of half the players can lose: pair each with a different one of the others; the odd one out sits out)
Left(alive, L) == [p \in DOMAIN alive |-> IF p \in L THEN alive[p] - 1 ELSE alive[p]]
Gone(alive, L) == {p \in L : alive[p] <= 1}
AliveAfter(alive, L) == [p \in DOMAIN alive \ Gone(alive, L) |-> Left(alive, L)[p]]
DeadAfter(alive, dead, L) == [p \in DOMAIN dead \union Gone(alive, L) |-> IF p \in DOMAIN dead THEN dead[p] ELSE Left(alive, L)[p]]
\* is (a2, d2) a possible outcome of a round from (a1, d1)?
Beaten(a1, a2, d2) == {p \in DOMAIN a1 : (p \in DOMAIN a2 /\ a2[p] # a1[p]) \/ p \notin DOMAIN a2}
Round(a1, d1, a2, d2) == LET L == Beaten(a1, a2, d2) IN L \in Losers(a1) /\ a2 = AliveAfter(a1, L) /\ d2 = DeadAfter(a1, d1, L)
======================================================================================
