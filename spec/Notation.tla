---------------------------------- MODULE Notation ----------------------------------
(* Names of points.  Index -1 is off (home), 0..23 the points seen by their player,   *)
(* 24 the bar.                                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
YOU == 0
HIM == 1
ERR == "ValueError"
MoveName(n) == IF n < 0 THEN "off" ELSE IF n < 24 THEN ToString(n + 1) ELSE IF n = 24 THEN "bar" ELSE ERR
Whose(w) == IF w = YOU THEN "your" ELSE "his"
\* the board's points are numbered from your side
PointName(n, w) == IF n < 0 THEN Whose(w) \o " home" ELSE IF n < 24 THEN ToString(IF w = YOU THEN n + 1 ELSE 24 - n)
                   ELSE IF n = 24 THEN Whose(w) \o " bar" ELSE ERR
NONE == -99
MoveIndex(s, isint, v) == IF s = "bar" THEN 24 ELSE IF s = "off" THEN -1 ELSE IF isint /\ v \in 1..24 THEN v - 1 ELSE NONE
PointIndex(s, isint, v, w) == IF s \in {"your home", "his home"} THEN -1 ELSE IF s \in {"your bar", "his bar"} THEN 24
                              ELSE IF isint /\ v \in 1..24 THEN (IF w = YOU THEN v - 1 ELSE 24 - v) ELSE NONE
Flip(n) == 23 - n
OppOf(w) == IF w = YOU THEN HIM ELSE YOU
StepName(pm) == MoveName(pm.src) \o "/" \o MoveName(pm.dest) \o (IF pm.hit THEN "*" ELSE "")
RECURSIVE Joined(_)
Joined(pms) == IF Len(pms) = 1 THEN StepName(pms[1]) ELSE StepName(pms[1]) \o ", " \o Joined(Tail(pms))
MoveText(pms) == IF pms = <<>> THEN "o-o" ELSE Joined(pms)
=====================================================================================
