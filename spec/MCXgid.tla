---------------------------------- MODULE MCXgid ----------------------------------
EXTENDS Xgid, TLC
CONSTANT MAXC
Sides == [1..N+1 -> 0..MAXC]
Positions == {p \in Sides \X Sides : \A k \in 1..N : p[1][k] = 0 \/ p[2][N + 1 - k] = 0}
VARIABLES b, flag, go
Boards(PS) == {[position |-> <<p[1], p[2]>>, cube_in_logarithm |-> c, cube_owner |-> o, on_action |-> w, on_inner_action |-> w, rolled |-> r,
            score |-> s, match_length |-> m, crawford |-> k /\ m > 0, game_state |-> 1, doubled |-> FALSE, resign_offer |-> 0] :
           p \in PS, c \in {0, 3}, o \in {YOU, HIM, CENTER}, w \in {YOU, HIM}, r \in {<<0, 0>>, <<6, 1>>}, s \in {<<0, 0>>, <<2, 4>>},
           m \in {0, 5}, k \in BOOLEAN}
Init == b \in {CHOOSE x \in Boards({p}) : TRUE : p \in Positions} /\ flag = 0 /\ go = FALSE
Next == ~go /\ go' = TRUE /\ b' \in Boards({b.position}) /\ flag' \in {0, 1} /\ (b'.match_length > 0 => (flag' = 1) = b'.crawford)
Spec == Init /\ [][Next]_<<b, flag, go>>
Inverse == go => WellFormed(Encode(b, flag)) /\ DecodeOk(Encode(b, flag)) = b
================================================================================
