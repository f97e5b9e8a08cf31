---------------------------------- MODULE MCFibs ----------------------------------
(* Decode is the inverse of what a server sends, for each colour and direction;    *)
(* the two directions of one board mirror each other.                              *)
EXTENDS Fibs, TLC
CONSTANT MAXC
VARIABLES b, c, d, go
Sides == [1..N+1 -> 0..MAXC]
Legal(p) == \A k \in 1..N : p[1][k] = 0 \/ p[2][N + 1 - k] = 0
Positions == {p \in Sides \X Sides : Legal(p)}
\* a turn marker with its dependent fields
Heads == {[on_action |-> w, on_inner_action |-> IF x THEN Other(w) ELSE w, doubled |-> x, rolled |-> r, game_state |-> 1] :
            w \in {YOU, HIM}, x \in BOOLEAN, r \in {<<0, 0>>, <<3, 1>>}}
         \union {[on_action |-> CENTER, on_inner_action |-> CENTER, doubled |-> FALSE, rolled |-> <<0, 0>>, game_state |-> 2]}
Cubes == {[cube_in_logarithm |-> n, cube_owner |-> o, crawford |-> FALSE] : n \in 0..2, o \in {YOU, HIM, CENTER}}
         \union {[cube_in_logarithm |-> 0, cube_owner |-> CENTER, crawford |-> TRUE]}
Board(p, h, q) == [position |-> <<p[1], p[2]>>, cube_in_logarithm |-> q.cube_in_logarithm, cube_owner |-> q.cube_owner, crawford |-> q.crawford,
                   on_action |-> h.on_action, on_inner_action |-> h.on_inner_action, rolled |-> h.rolled, game_state |-> h.game_state,
                   doubled |-> h.doubled, resign_offer |-> 0, match_length |-> 5, score |-> <<2, 4>>]
H0 == CHOOSE h \in Heads : TRUE
Q0 == CHOOSE q \in Cubes : TRUE
Init == b \in {Board(p, H0, Q0) : p \in Positions} /\ c = 1 /\ d = 1 /\ go = FALSE
Next == /\ ~go /\ go' = TRUE
        /\ b' \in {Board(b.position, h, q) : h \in Heads, q \in Cubes} /\ c' \in {1, -1} /\ d' \in {1, -1}
Spec == Init /\ [][Next]_<<b, c, d, go>>
Inverse == go => Decode(Encode(b, c, d)) = b
Mirrored == go => LET f == Encode(b, c, d)  g == Encode(b, c, -d) IN \A i \in 1..N+2 : f.pts[i] = g.pts[N + 3 - i]
Swapped == go => \A i \in 1..N+2 : Encode(b, c, d).pts[i] = -Encode(b, -c, d).pts[i]
================================================================================
