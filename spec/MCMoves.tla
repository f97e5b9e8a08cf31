------------------------------- MODULE MCMoves -------------------------------
(* A whole turn on a small board, entered step by step and undone in any order. *)
EXTENDS Bg, TLC
CONSTANTS CHEQ, DICE           \* chequers per side; the dice that are rolled
VARIABLES start, pos, who, rolled, av, mv
vars == <<start, pos, who, rolled, av, mv>>

Sides == {s \in [1 .. N+1 -> 0 .. CHEQ] : SumSeq(s) <= CHEQ}
Legal(p) == \A i \in Points : ~(Cnt(p[1], i) > 0 /\ Cnt(p[2], Mirror(i)) > 0)

Init == /\ start \in {p \in Sides \X Sides : Legal(p)}
        /\ pos = start /\ who \in {YOU, HIM}
        /\ rolled \in {r \in DICE \X DICE : TRUE}
        /\ av = Dice(rolled) /\ mv = <<>>
Play == \E d \in DICE : /\ av[d] > 0
          /\ \E pm \in Steps(pos, who, d) :
               /\ pos' = Apply(pos, who, pm) /\ mv' = Record(mv, pm) /\ av' = Spend(av, d)
          /\ UNCHANGED <<start, who, rolled>>
\* the latest step may be undone
Undo == /\ mv # <<>>
        /\ LET pm == Inverse(mv[Len(mv)]) IN
             pos' = Apply(pos, who, pm) /\ mv' = Record(mv, pm) /\ av' = Regain(av, pm.die)
        /\ UNCHANGED <<start, who, rolled>>
Next == Play \/ Undo
Spec == Init /\ [][Next]_vars

Off(p, w) == CHEQ - SumSeq(Side(p, w))
TypeOK == pos[1] \in Sides /\ pos[2] \in Sides /\ Legal(pos)
Conserved ==                    \* the opponent loses nobody; the mover only by bearing off
  /\ SumSeq(Side(pos, Opp(who))) = SumSeq(Side(start, Opp(who)))
  /\ SumSeq(Side(pos, who)) = SumSeq(Side(start, who)) - Cardinality({k \in 1..Len(mv) : mv[k].dest = OFFB})
Ledger == /\ pos = ApplyAll(start, who, mv)
          /\ Left(av) + Len(mv) = Left(Dice(rolled))
          /\ \A d \in 1..6 : av[d] + Cardinality({k \in 1..Len(mv) : mv[k].die = d}) = Dice(rolled)[d]
Rewind == LET inv == [k \in 1..Len(mv) |-> Inverse(mv[Len(mv) + 1 - k])] IN ApplyAll(pos, who, inv) = start
Symmetric == \A d \in DICE : Steps(FlipPos(pos), Opp(who), d) = Steps(pos, who, d)
FlipCommutes == \A d \in DICE : \A pm \in Steps(pos, who, d) :
                   Apply(FlipPos(pos), Opp(who), pm) = FlipPos(Apply(pos, who, pm))
FastRule == CompletePlay(start, who, rolled, pos, av) = CompletePlayFast(start, who, rolled, pos, av)
UniqueOff == \A d \in DICE : Cardinality(OffSrc(pos, who, d)) <= 1
NoStepLeft == CompletePlay(start, who, rolled, pos, av) => ~AnyStep(pos, who, av)
=============================================================================
