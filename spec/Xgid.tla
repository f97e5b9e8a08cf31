----------------------------------- MODULE Xgid -----------------------------------
(* An XGID is ten fields separated by colons.  A line is given as its fields: the  *)
(* position as a sequence of one-character strings, the others as records          *)
(* [int: is it a decimal integer?, val: its value, n: its length].                 *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT N
YOU == 0
HIM == 1
CENTER == 3
Upper == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O">>
Lower == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o">>
Count(alphabet, c) == IF \E i \in 1..15 : alphabet[i] = c THEN CHOOSE i \in 1..15 : alphabet[i] = c ELSE 0
\* positions 0 .. N+1: 0 is the lowercase side's bar, N+1 the uppercase side's; uppercase moves towards 1
Position(s) == << [k \in 1..N+1 |-> Count(Lower, s[N + 2 - k])], [k \in 1..N+1 |-> Count(Upper, s[k + 1])] >>
Player(v) == IF v = 1 THEN HIM ELSE IF v = -1 THEN YOU ELSE CENTER
DecodeOk(f) ==
  [position |-> Position(f.pos), cube_in_logarithm |-> f.cube.val, cube_owner |-> Player(f.owner.val),
   on_action |-> Player(f.turn.val), on_inner_action |-> Player(f.turn.val), rolled |-> f.dice,
   score |-> <<f.his.val, f.your.val>>, match_length |-> f.length.val,
   crawford |-> f.length.val > 0 /\ f.flag.val = 1,
   game_state |-> 1, doubled |-> FALSE, resign_offer |-> 0]
WellFormed(f) ==
  /\ f.fields = 10 /\ Len(f.pos) = N + 2
  /\ f.cube.int /\ f.owner.int /\ f.owner.val \in {-1, 0, 1} /\ f.turn.int /\ f.turn.val \in {-1, 1}
  /\ f.rolln = 2 /\ f.rollint /\ f.your.int /\ f.his.int /\ f.flag.int /\ f.flag.val \in {0, 1}
  /\ f.length.int /\ f.length.val >= 0
\* the id of a board (for the model only)
Encode(b, flag) ==
  [fields |-> 10,
   pos |-> [i \in 1..N+2 |-> LET lo == IF i = N + 2 THEN 0 ELSE b.position[1][N + 2 - i]
                                 up == IF i = 1 THEN 0 ELSE b.position[2][i - 1]
                             IN IF lo > 0 THEN Lower[lo] ELSE IF up > 0 THEN Upper[up] ELSE "-"],
   cube |-> [int |-> TRUE, val |-> b.cube_in_logarithm],
   owner |-> [int |-> TRUE, val |-> IF b.cube_owner = HIM THEN 1 ELSE IF b.cube_owner = YOU THEN -1 ELSE 0],
   turn |-> [int |-> TRUE, val |-> IF b.on_action = HIM THEN 1 ELSE -1],
   rolln |-> 2, rollint |-> TRUE, dice |-> b.rolled,
   his |-> [int |-> TRUE, val |-> b.score[1]], your |-> [int |-> TRUE, val |-> b.score[2]],
   flag |-> [int |-> TRUE, val |-> flag], length |-> [int |-> TRUE, val |-> b.match_length]]
================================================================================
