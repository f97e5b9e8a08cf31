--------------------------------- MODULE MCGnubgId ---------------------------------
EXTENDS GnubgId, TLC
CONSTANT MAXC
SidesS == [1..N+1 -> 0..MAXC]
VARIABLES p, b, go
Heads == {[cube_in_logarithm |-> c, cube_owner |-> o, on_action |-> w, crawford |-> k, game_state |-> g, on_inner_action |-> i, doubled |-> d,
        resign_offer |-> r, rolled |-> dice, match_length |-> m, score |-> s] :
       c \in {0, 1, 6, 15}, o \in {0, 1, 3}, w \in {0, 1}, k \in {TRUE}, g \in 0..4, i \in {0}, d \in BOOLEAN, r \in {0, 3},
       dice \in {<<0, 0>>}, m \in {0, 9, 32767}, s \in {<<0, 0>>}}
Tails(x) == {[x EXCEPT !.crawford = k, !.on_inner_action = i, !.rolled = dice, !.score = s] :
       k \in BOOLEAN, i \in {0, 1}, dice \in {<<0, 0>>, <<6, 1>>, <<2, 5>>}, s \in {<<0, 0>>, <<32767, 1>>, <<0, 16384>>}}
Plain == [cube_in_logarithm |-> 0, cube_owner |-> 3, on_action |-> 0, crawford |-> FALSE, game_state |-> 1, on_inner_action |-> 0, doubled |-> FALSE,
          resign_offer |-> 0, rolled |-> <<0, 0>>, match_length |-> 0, score |-> <<0, 0>>]
P0 == CHOOSE x \in SidesS \X SidesS : TRUE
Init == /\ go = FALSE
        /\ \/ p \in {<<s, P0[2]>> : s \in SidesS} /\ b = Plain
           \/ p = P0 /\ b \in Heads
\* the rest is chosen in a step, so that TLC's workers share the work
Next == /\ ~go /\ go' = TRUE
        /\ \/ b = Plain /\ p' \in {<<p[1], s>> : s \in SidesS} /\ b' \in {Plain, [Plain EXCEPT !.on_action = 1]}
           \/ b # Plain /\ UNCHANGED p /\ b' \in Tails(b)
Spec == Init /\ [][Next]_<<p, b, go>>
Board == [position |-> <<p[1], p[2]>>, cube_in_logarithm |-> b.cube_in_logarithm, cube_owner |-> b.cube_owner, on_action |-> b.on_action,
          crawford |-> b.crawford, game_state |-> b.game_state, on_inner_action |-> b.on_inner_action, doubled |-> b.doubled,
          resign_offer |-> b.resign_offer, rolled |-> b.rolled, match_length |-> b.match_length, score |-> b.score]
RoundTrip == go => Decode(BoardPid(Board), MatchId(Board)) = Board
Text == go => Len(MatchId(Board)) = 12 /\ \A i \in 1..12 : MatchId(Board)[i] \in 0..63
================================================================================
