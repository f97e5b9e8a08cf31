---------------------------------- MODULE DbByte ----------------------------------
(* The byte form of a position: N+2 signed counts seen from the side on action.    *)
(* Item i+1 is position i of that side: its own chequers positive, the opponent's  *)
(* negative; position 0 holds only the opponent's bar, position N+1 its own.       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT N
Pos(side, k) == IF k = 0 THEN 0 ELSE side[k]            \* k = 0 .. N+1; N+1 is the bar
Code(mine, his) == [i \in 1..N+2 |-> Pos(mine, i - 1) - Pos(his, N + 2 - i)]
Mover(b) == IF b.on_action = 0 THEN b.position[1] ELSE b.position[2]
Waiter(b) == IF b.on_action = 0 THEN b.position[2] ELSE b.position[1]
Encode(b) == Code(Mover(b), Waiter(b))
Plus(x) == IF x > 0 THEN x ELSE 0
DecodePair(s) == << [k \in 1..N+1 |-> Plus(s[k + 1])], [k \in 1..N+1 |-> Plus(-s[N + 2 - k])] >>
Position(s, on) == LET d == DecodePair(s) IN IF on = 0 THEN d ELSE <<d[2], d[1]>>
RECURSIVE Dist(_, _)
Dist(x, y) == IF x = <<>> THEN 0 ELSE (Head(x) - Head(y)) * (Head(x) - Head(y)) + Dist(Tail(x), Tail(y))
================================================================================
