---------------------------------- MODULE Bg ----------------------------------
(* Positions and movement rules of backgammon, as bglib.model defines them.     *)
(* A position is a pair <<yours, his>>; each side is a sequence of N+1 counts,  *)
(* point i (0-based, seen by its owner) at index i+1, the bar being point N.    *)
(* N = 24, HOME = 6 for the real board; smaller values for model checking.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, HOME

YOU == 0
HIM == 1
OFFB == -1                       \* borne off
BARP == N                        \* the bar
Points == 0 .. N-1

Opp(w) == 1 - w
Mirror(i) == N - 1 - i
Side(pos, w) == pos[w + 1]
Cnt(side, i) == side[i + 1]
Mine(pos, w, i) == Cnt(Side(pos, w), i)
Theirs(pos, w, i) == Cnt(Side(pos, Opp(w)), i)

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

\* ------------------------------------------------------------------ predicates
Movable(pos, w, i)  == Mine(pos, w, i) > 0 /\ (i = BARP \/ Mine(pos, w, BARP) = 0)
OpenAt(pos, w, i)   == i = OFFB \/ Theirs(pos, w, Mirror(i)) < 2
HitAt(pos, w, i)    == i # OFFB /\ Theirs(pos, w, Mirror(i)) = 1
AllHome(pos, w)     == \A i \in HOME .. N : Mine(pos, w, i) = 0
\* bearing off the chequer on the occupied home point i with die d
OffOk(pos, w, i, d) ==
  /\ AllHome(pos, w)
  /\ Mine(pos, w, i) > 0
  /\ \/ d = i + 1
     \/ d > i + 1 /\ \A j \in i+1 .. HOME-1 : Mine(pos, w, j) = 0
\* the source the rules dictate for bearing off with d (a set: empty or one point)
OffSrc(pos, w, d) == {i \in 0 .. HOME-1 : OffOk(pos, w, i, d)}

\* ------------------------------------------------------------------ partial moves
\* [die, src, dest, hit]
StepFrom(pos, w, d, i) ==                \* set of at most one partial move
  IF ~Movable(pos, w, i) THEN {}
  ELSE IF i - d >= 0
       THEN IF OpenAt(pos, w, i - d)
            THEN {[die |-> d, src |-> i, dest |-> i - d, hit |-> HitAt(pos, w, i - d)]} ELSE {}
       ELSE IF i < N /\ OffOk(pos, w, i, d)
            THEN {[die |-> d, src |-> i, dest |-> OFFB, hit |-> FALSE]} ELSE {}
Steps(pos, w, d) == UNION {StepFrom(pos, w, d, i) : i \in 0 .. N}
LegalStep(pos, w, pm) == pm \in StepFrom(pos, w, pm.die, pm.src)

Add(side, i, k) == IF i = OFFB THEN side ELSE [side EXCEPT ![i + 1] = @ + k]
Pair(w, mine, theirs) == IF w = YOU THEN <<mine, theirs>> ELSE <<theirs, mine>>
IsUndo(pm) == pm.dest > pm.src
Apply(pos, w, pm) ==
  LET mine   == Add(Add(Side(pos, w), pm.src, -1), pm.dest, 1)
      theirs == Side(pos, Opp(w))
      hitpt  == IF IsUndo(pm) THEN Mirror(pm.src) ELSE Mirror(pm.dest)
      k      == IF IsUndo(pm) THEN -1 ELSE 1
  IN  Pair(w, mine, IF pm.hit THEN Add(Add(theirs, hitpt, -k), BARP, k) ELSE theirs)
Inverse(pm) == [die |-> pm.die, src |-> pm.dest, dest |-> pm.src, hit |-> pm.hit]
RECURSIVE ApplyAll(_, _, _)
ApplyAll(pos, w, pms) == IF pms = <<>> THEN pos ELSE ApplyAll(Apply(pos, w, Head(pms)), w, Tail(pms))
FlipPos(pos) == <<pos[2], pos[1]>>

\* a recorded move: appending the inverse of the latest matching step removes that step
RECURSIVE LastInverse(_, _, _)
LastInverse(mv, pm, k) == IF k = 0 THEN 0 ELSE IF mv[k] = Inverse(pm) THEN k ELSE LastInverse(mv, pm, k - 1)
RemoveIdx(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Record(mv, pm) == LET k == LastInverse(mv, pm, Len(mv)) IN IF k = 0 THEN Append(mv, pm) ELSE RemoveIdx(mv, k)

\* ------------------------------------------------------------------ dice: counts of 1..6
Dice(rolled) == [d \in 1..6 |-> IF rolled[1] = 0 THEN 0
                                ELSE IF rolled[1] = rolled[2] THEN (IF d = rolled[1] THEN 4 ELSE 0)
                                ELSE IF d \in {rolled[1], rolled[2]} THEN 1 ELSE 0]
Left(av) == av[1] + av[2] + av[3] + av[4] + av[5] + av[6]
Spend(av, d) == [av EXCEPT ![d] = @ - 1]
Regain(av, d) == [av EXCEPT ![d] = @ + 1]
AnyStep(pos, w, av) == \E d \in 1..6 : av[d] > 0 /\ Steps(pos, w, d) # {}

\* the largest number of dice in av that can be played
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE MostDice(_, _, _)
MostDice(pos, w, av) ==
  Max({0} \union UNION {{1 + MostDice(Apply(pos, w, pm), w, Spend(av, d)) : pm \in Steps(pos, w, d)} : d \in {e \in 1..6 : av[e] > 0}})

\* the rule, literally: the dice used are as many as possible, and the larger one if only one can be used
CompletePlay(start, w, rolled, now, av) ==
  LET roll == Dice(rolled)  used == Left(roll) - Left(av)  most == MostDice(start, w, roll)
      big == IF rolled[1] > rolled[2] THEN rolled[1] ELSE rolled[2]
  IN /\ used = most
     /\ (most = 1 /\ rolled[1] # rolled[2] /\ Steps(start, w, big) # {}) => av[big] = 0
\* the same rule, without searching all plays of doubles (TLC proves the equivalence on small boards, MCMoves)
CompletePlayFast(start, w, rolled, now, av) ==
  IF AnyStep(now, w, av) THEN FALSE
  ELSE rolled[1] = rolled[2] \/ CompletePlay(start, w, rolled, now, av)
=============================================================================
