---------------------------------- MODULE MCTourney ----------------------------------
(* Matches are played one by one between two paired players, as built; the rounds so  *)
(* formed are exactly Tourney's, nobody is lost, and one winner always remains.       *)
EXTENDS Tourney, TLC
CONSTANTS PLAYERS, LIVES
VARIABLES alive, dead, start, waiting, a0, d0, done
vars == <<alive, dead, start, waiting, a0, d0, done>>
Init == /\ start \in [PLAYERS -> 1..LIVES] /\ alive = start /\ dead = [p \in {} |-> 0]
        /\ waiting = PLAYERS /\ a0 = alive /\ d0 = dead /\ done = FALSE
Lose(p) == IF alive[p] = 1
           THEN alive' = [q \in DOMAIN alive \ {p} |-> alive[q]] /\ dead' = [q \in DOMAIN dead \union {p} |-> IF q = p THEN 0 ELSE dead[q]]
           ELSE alive' = [alive EXCEPT ![p] = @ - 1] /\ UNCHANGED dead
Match == Cardinality(waiting) >= 2 /\ \E a, b \in waiting : a # b /\ Lose(a) /\ waiting' = waiting \ {a, b} /\ UNCHANGED <<start, a0, d0, done>>
Turn == /\ Cardinality(waiting) < 2 /\ Cardinality(DOMAIN alive) > 1
        /\ waiting' = DOMAIN alive /\ a0' = alive /\ d0' = dead /\ UNCHANGED <<alive, dead, start, done>>
End == Cardinality(DOMAIN alive) = 1 /\ Cardinality(waiting) < 2 /\ ~done /\ done' = TRUE /\ UNCHANGED <<alive, dead, start, waiting, a0, d0>>
Next == Match \/ Turn \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Everyone == DOMAIN alive \union DOMAIN dead = PLAYERS /\ DOMAIN alive \cap DOMAIN dead = {}
Lives == (\A p \in DOMAIN alive : alive[p] \in 1..start[p]) /\ (\A p \in DOMAIN dead : dead[p] = 0)
Rounds == Cardinality(waiting) < 2 => Round(a0, d0, alive, dead)
Winner == <>(done /\ Cardinality(DOMAIN alive) = 1)
======================================================================================
