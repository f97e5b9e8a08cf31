------------------------------- MODULE GenTurns -------------------------------
(* Behaviours of a turn generated by TLC (simulation) on the real board from    *)
(* given positions: every transition is printed and replayed into the code.     *)
EXTENDS Bg, TLC, Json, IOUtils
Starts == ndJsonDeserialize(IOEnv.VSTARTS)
VARIABLES id, pos, who, rolled, av, mv, hist
vars == <<id, pos, who, rolled, av, mv, hist>>
CONSTANT DEPTH
Init == /\ \E k \in 1..Len(Starts) : /\ id = k /\ pos = Starts[k].pos /\ who = Starts[k].who /\ rolled = Starts[k].rolled
                                     /\ av = Dice(Starts[k].rolled)
        /\ mv = <<>> /\ hist = <<>>
Do(pm) == /\ pos' = Apply(pos, who, pm) /\ mv' = Record(mv, pm) /\ hist' = Append(hist, pm)
          /\ av' = IF IsUndo(pm) THEN Regain(av, pm.die) ELSE Spend(av, pm.die)
          /\ UNCHANGED <<id, who, rolled>>
Play == \E d \in 1..6 : av[d] > 0 /\ \E pm \in Steps(pos, who, d) : Do(pm)
\* any recorded step whose reversal the board permits (its chequer is still where it was put)
Undo == \E k \in 1..Len(mv) :
          /\ ~\E j \in 1..Len(mv) : j # k /\ (mv[j].src = mv[k].dest)
          /\ \/ k = Len(mv)
             \/ (~mv[k].hit /\ mv[k].src # BARP /\ mv[k].dest # OFFB /\ \A j \in k+1..Len(mv) : mv[j].src # BARP /\ mv[j].dest # OFFB)
          /\ Do(Inverse(mv[k]))
Next == Len(hist) < DEPTH /\ (Play \/ Undo)
Spec == Init /\ [][Next]_vars
Ended == Len(hist) = DEPTH \/ ~ENABLED Next
\* the emission: evaluated in every state
Emit == (Len(hist) = DEPTH \/ (hist # <<>> /\ ~AnyStep(pos, who, av) /\ Len(hist) % 3 = 0)) =>
          PrintT("@@" \o ToJson([id |-> id, hist |-> hist]))
=============================================================================
