------------------------------- MODULE Protocol -------------------------------
(* Whose turn and whose decision it is: rolling, doubling, taking, dropping,     *)
(* resigning, passing the turn.  A board is the record of bglib's twelve fields. *)
EXTENDS Integers, Sequences, FiniteSets
YOU == 0  HIM == 1  CENTER == 3
ONGOING == 1  RESIGNED == 3  DOUBLEDOUT == 4
NODICE == <<0, 0>>
Opp(w) == 1 - w
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Score(b, w) == b.score[w + 1]
AddScore(b, w, k) == [b.score EXCEPT ![w + 1] = @ + k]

Going(b) == b.game_state = ONGOING
OnTurn(b, w) == Going(b) /\ b.on_action = w /\ b.on_inner_action = w
MayRoll(b, w) == OnTurn(b, w) /\ b.resign_offer = 0 /\ b.rolled = NODICE
MayMove(b, w) == OnTurn(b, w) /\ b.resign_offer = 0 /\ b.rolled # NODICE
DeadCube(b, w) == b.match_length # 0 /\ Score(b, w) + Pow2(b.cube_in_logarithm) >= b.match_length
MayDouble(b, w) == OnTurn(b, w) /\ b.rolled = NODICE /\ ~b.crawford /\ ~b.doubled
                   /\ b.cube_owner \in {w, CENTER} /\ ~DeadCube(b, w)
MayTake(b, w) == Going(b) /\ b.doubled /\ b.on_action = Opp(w) /\ b.on_inner_action = w
MayRedouble(b, w) == MayTake(b, w) /\ b.match_length = 0
MayResign(b, w) == OnTurn(b, w)
MayAccept(b, w) == Going(b) /\ b.resign_offer \in 1..3 /\ b.on_inner_action = w

Roll(b, d) == [b EXCEPT !.rolled = d]
Double(b, w) == [b EXCEPT !.doubled = TRUE, !.on_inner_action = Opp(w)]
Take(b, w) == [b EXCEPT !.doubled = FALSE, !.on_inner_action = b.on_action, !.cube_in_logarithm = @ + 1, !.cube_owner = w]
Drop(b, w) == [b EXCEPT !.game_state = DOUBLEDOUT, !.score = AddScore(b, Opp(w), Pow2(b.cube_in_logarithm))]
Offer(b, w, n) == [b EXCEPT !.resign_offer = n, !.on_inner_action = Opp(w)]
Accept(b, w) == [b EXCEPT !.game_state = RESIGNED, !.score = AddScore(b, w, b.resign_offer * Pow2(b.cube_in_logarithm))]
Reject(b, w) == [b EXCEPT !.resign_offer = 0, !.on_inner_action = Opp(w)]
Pass(b) == [b EXCEPT !.rolled = NODICE, !.on_action = Opp(@), !.on_inner_action = Opp(@)]

Pending(b) == b.doubled \/ b.resign_offer # 0
Coherent(b) == /\ ~(b.doubled /\ b.resign_offer # 0)
               /\ Pending(b) <=> b.on_inner_action # b.on_action
               /\ b.doubled => b.rolled = NODICE

Swap(b) == LET sw(w) == IF w \in {0, 1} THEN 1 - w ELSE w IN
  [b EXCEPT !.on_action = sw(@), !.on_inner_action = sw(@), !.cube_owner = sw(@), !.score = <<@[2], @[1]>>]
=============================================================================
