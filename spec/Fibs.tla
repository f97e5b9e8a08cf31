----------------------------------- MODULE Fibs -----------------------------------
(* What a FIBS "board:" line says (http://www.fibs.com/fibs_interface.html).       *)
(* A line is a record of its fields; `pts` holds its N+2 signed counts, position i *)
(* at index i+1 (0 and N+1 are the two bars).  A board is the twelve public fields *)
(* of bglib's Board, positions seen by their owner: N points then the bar.         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT N
YOU == 0
HIM == 1
CENTER == 3

At(f, i) == f.pts[i + 1]
Own(f, i) == IF f.colour * At(f, i) > 0 THEN f.colour * At(f, i) ELSE 0
His(f, i) == IF f.colour * At(f, i) < 0 THEN -(f.colour * At(f, i)) ELSE 0
\* playing downwards (direction -1) my k-th point is position k and my bar position N+1;
\* playing upwards it is N+1-k and my bar is position 0.  He plays the other way.
Place(dir, k) == IF dir < 0 THEN k ELSE N + 1 - k
Position(f) == << [k \in 1..N+1 |-> Own(f, Place(f.dir, k))], [k \in 1..N+1 |-> His(f, Place(-f.dir, k))] >>

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)

Turn(f) == IF f.turn = f.colour THEN YOU ELSE IF f.turn = -f.colour THEN HIM ELSE CENTER
Other(w) == IF w = YOU THEN HIM ELSE IF w = HIM THEN YOU ELSE w
Owner(f) == IF f.mydbl = f.hisdbl THEN CENTER ELSE IF f.mydbl # 0 THEN YOU ELSE HIM

Decode(f) ==
  [position |-> Position(f),
   cube_in_logarithm |-> Log2(f.cube),
   cube_owner |-> Owner(f),
   crawford |-> f.mydbl = 0 /\ f.hisdbl = 0,
   on_action |-> Turn(f),
   on_inner_action |-> IF f.doubled # 0 THEN Other(Turn(f)) ELSE Turn(f),
   rolled |-> IF Turn(f) = YOU THEN f.mydice ELSE IF Turn(f) = HIM THEN f.hisdice ELSE <<0, 0>>,
   game_state |-> IF Turn(f) = CENTER THEN 2 ELSE 1,
   doubled |-> f.doubled # 0,
   resign_offer |-> 0,
   match_length |-> f.length,
   score |-> f.score]

\* the line a server sends about board b to a player of that colour and direction
Encode(b, colour, dir) ==
  [pts |-> [i \in 1..N+2 |->
              LET k == IF dir < 0 THEN i - 1 ELSE N + 2 - i          \* my name for position i-1
                  mine == IF k = 0 THEN 0 ELSE b.position[1][k]
                  his  == IF k = N + 1 THEN 0 ELSE b.position[2][N + 1 - k]
              IN colour * (mine - his)],
   colour |-> colour, dir |-> dir,
   turn |-> IF b.on_action = YOU THEN colour ELSE IF b.on_action = HIM THEN -colour ELSE 0,
   mydice |-> IF b.on_action = YOU THEN b.rolled ELSE <<0, 0>>,
   hisdice |-> IF b.on_action = HIM THEN b.rolled ELSE <<0, 0>>,
   cube |-> 2 ^ b.cube_in_logarithm,
   mydbl |-> IF b.cube_owner = YOU \/ (b.cube_owner = CENTER /\ ~b.crawford) THEN 1 ELSE 0,
   hisdbl |-> IF b.cube_owner = HIM \/ (b.cube_owner = CENTER /\ ~b.crawford) THEN 1 ELSE 0,
   doubled |-> IF b.doubled THEN 1 ELSE 0,
   length |-> b.match_length, score |-> b.score]
================================================================================
