------------------------------ MODULE MCProtocol ------------------------------
EXTENDS Protocol, TLC, Json
CONSTANTS LENGTHS, MAXSCORE, MAXCUBE, EMIT
VARIABLES b, base, turns
vars == <<b, base, turns>>
Init == /\ b \in [on_action : {0, 1}, on_inner_action : {0, 1}, doubled : {FALSE}, resign_offer : {0}, rolled : {NODICE},
                  cube_in_logarithm : 0..1, cube_owner : {0, 1, 3}, crawford : {TRUE, FALSE}, game_state : {ONGOING},
                  match_length : LENGTHS, score : (0..MAXSCORE) \X (0..MAXSCORE)]
        /\ b.on_action = b.on_inner_action
        /\ (b.cube_in_logarithm = 0) <=> (b.cube_owner = CENTER)
        /\ b.match_length > 0 => b.score[1] < b.match_length /\ b.score[2] < b.match_length
        /\ b.match_length = 0 => b.score = <<0, 0>> /\ ~b.crawford
        /\ base = b.score /\ turns = 0
Who == {0, 1}
Go(n) == b' = n /\ UNCHANGED <<base, turns>>
DoRoll == \E w \in Who : MayRoll(b, w) /\ Go(Roll(b, <<3, 1>>))
DoDouble == \E w \in Who : MayDouble(b, w) /\ b.cube_in_logarithm < MAXCUBE /\ Go(Double(b, w))
DoTake == \E w \in Who : MayTake(b, w) /\ Go(Take(b, w))
DoDrop == \E w \in Who : MayTake(b, w) /\ Go(Drop(b, w))
DoOffer == \E w \in Who, n \in 1..3 : MayResign(b, w) /\ Go(Offer(b, w, n))
DoAccept == \E w \in Who : MayAccept(b, w) /\ Go(Accept(b, w))
DoReject == \E w \in Who : MayAccept(b, w) /\ Go(Reject(b, w))
DoPass == \E w \in Who : MayMove(b, w) /\ turns < 2 /\ b' = Pass(b) /\ turns' = turns + 1 /\ UNCHANGED base
Next == DoRoll \/ DoDouble \/ DoTake \/ DoDrop \/ DoOffer \/ DoAccept \/ DoReject \/ DoPass
Spec == Init /\ [][Next]_vars

May(x, w) == MayRoll(x, w) \/ MayMove(x, w) \/ MayDouble(x, w) \/ MayTake(x, w) \/ MayResign(x, w) \/ MayAccept(x, w)
InvCoherent == Going(b) => Coherent(b)
InvOneDecider == IF Going(b) THEN Cardinality({w \in Who : May(b, w)}) = 1 /\ May(b, b.on_inner_action)
                 ELSE \A w \in Who : ~May(b, w)
InvScore == IF Going(b) THEN b.score = base
            ELSE \E w \in Who : Score(b, Opp(w)) = base[Opp(w) + 1] /\
                   Score(b, w) - base[w + 1] = Pow2(b.cube_in_logarithm) * (IF b.game_state = RESIGNED THEN b.resign_offer ELSE 1)
InvLoserDecided == ~Going(b) =>                       \* the points go to whom the decision handed them
  IF b.game_state = DOUBLEDOUT THEN Score(b, b.on_action) > base[b.on_action + 1]
  ELSE Score(b, b.on_inner_action) > base[b.on_inner_action + 1]
InvSymmetric == \A w \in Who : /\ MayRoll(Swap(b), Opp(w)) = MayRoll(b, w) /\ MayDouble(Swap(b), Opp(w)) = MayDouble(b, w)
                               /\ MayTake(Swap(b), Opp(w)) = MayTake(b, w) /\ MayAccept(Swap(b), Opp(w)) = MayAccept(b, w)
                               /\ MayTake(b, w) => Take(Swap(b), Opp(w)) = Swap(Take(b, w)) /\ Drop(Swap(b), Opp(w)) = Swap(Drop(b, w))
                               /\ MayAccept(b, w) => Accept(Swap(b), Opp(w)) = Swap(Accept(b, w))
InvCubeOwner == b.cube_owner = CENTER <=> b.cube_in_logarithm = 0
Ended == [][Going(b) \/ UNCHANGED b]_vars
Emit == EMIT => PrintT("@@" \o ToJson(b))
View == b
=============================================================================
