------------------------------ MODULE JudgeMoves ------------------------------
(* Judges records of bglib.model (harness/drv_model.py) against Bg.             *)
(* A ledger trace is one "begin" record and one record per event; the spec      *)
(* state st advances by the specification and must equal what was observed.     *)
EXTENDS Bg, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VTRACE)
VARIABLES l, st
F(name, ok) == IF ok THEN {} ELSE {name}

\* ---- B02
JApply(r) ==
  LET a == Apply(r.pos, r.who, r.pm) IN
  F("generator: the step is legal", LegalStep(r.pos, r.who, r.pm))
  \union F("chequers move as the rules say", r.after = a)
  \union F("a thawed board moves alike", r.frozen = a)
  \union F("nothing else on the board changes", r.rest)
  \union F("the reverse step restores the board", r.back)
  \union F("flipping swaps the sides", r.flipped = FlipPos(r.pos))
  \union F("flip commutes with moving", r.flipafter = FlipPos(a) /\ r.flipback = a)
  \union F("flipping twice is the identity", r.flip2)
  \union F("making a move makes all its steps", r.made = ApplyAll(r.pos, r.who, r.mv))
SwapW(w) == IF w \in {0, 1} THEN 1 - w ELSE w
JFlip(r) ==
  LET e == [r.a EXCEPT !.position = <<@[2], @[1]>>, !.score = <<@[2], @[1]>>, !.cube_owner = SwapW(@),
                       !.on_action = SwapW(@), !.on_inner_action = SwapW(@)] IN
  F("flip exchanges the two players", r.b = e) \union F("flip twice is the identity", r.c = r.a)

\* ---- B03
JPred(r) ==
  F("movable", \A i \in 0..N : r.movable[i+1] = Movable(r.pos, r.who, i))
  \union F("open", \A i \in -1..N-1 : r.open[i+2] = OpenAt(r.pos, r.who, i))
  \union F("hit", \A i \in -1..N-1 : r.hit[i+2] = HitAt(r.pos, r.who, i))
  \union F("bearoff", \A i \in 0..N-1 : \A d \in 1..6 : r.offok[i+1][d] = OffOk(r.pos, r.who, i, d))
  \union F("bearoff source", \A d \in 1..6 : IF r.offsrc[d] = -2 THEN OffSrc(r.pos, r.who, d) = {}
                                             ELSE r.offsrc[d] \in OffSrc(r.pos, r.who, d))

\* ---- B04: ledger traces
SameLedger(s, r) == r.obs.pos = s.pos /\ r.obs.mv = s.mv /\ r.obs.av = s.av /\ r.obs.n = Left(s.av)
RECURSIVE Feed(_, _)
Feed(s, pms) ==
  IF pms = <<>> THEN s
  ELSE LET pm == Head(pms) IN
       Feed([s EXCEPT !.pos = Apply(@, s.who, pm), !.mv = Record(@, pm),
                      !.av = IF IsUndo(pm) THEN Regain(@, pm.die) ELSE Spend(@, pm.die)], Tail(pms))
StepOk(s, pm) == IF IsUndo(pm) THEN LastInverse(s.mv, pm, Len(s.mv)) > 0 ELSE s.av[pm.die] > 0 /\ LegalStep(s.pos, s.who, pm)
RECURSIVE FeedOk(_, _)
FeedOk(s, pms) == pms = <<>> \/ (StepOk(s, Head(pms)) /\ FeedOk(Feed(s, <<Head(pms)>>), Tail(pms)))
Invariants(s, o) ==
  F("board = start + recorded move", o.pos = ApplyAll(s.start, s.who, o.mv))
  \union F("available + used dice = roll",
      \A d \in 1..6 : o.av[d] + Cardinality({k \in 1..Len(o.mv) : o.mv[k].die = d}) = Dice(s.rolled)[d])
  \union F("the record holds no step and its undo", \A i, j \in 1..Len(o.mv) : o.mv[i] # Inverse(o.mv[j]))
JLedger(s, r) ==
  CASE r.op = "begin" ->
        LET n == [who |-> r.who, start |-> r.pos, pos |-> r.pos, rolled |-> r.rolled, av |-> Dice(r.rolled), mv |-> <<>>]
        IN  [st |-> n, bad |-> F("a turn begins with its roll and no move", SameLedger(n, r))]
    [] r.op \in {"step", "add"} ->
        LET pms == IF r.op = "step" THEN <<r.pm>> ELSE r.pms
            n == Feed(s, pms)
        IN  [st |-> [n EXCEPT !.pos = r.obs.pos, !.mv = r.obs.mv, !.av = r.obs.av],
             bad |-> F("generator: steps are legal", FeedOk(s, pms)) \union F("step accepted", r.ok) \union F("ledger as specified", SameLedger(n, r))
                     \union F("other fields untouched", r.others) \union Invariants(s, r.obs)]
    [] r.op \in {"nodie", "consume"} ->
        [st |-> s, bad |-> F("a missing die is refused", ~r.ok) \union F("a refused step changes nothing", SameLedger(s, r))]
    [] r.op = "clone" ->
        [st |-> s, bad |-> F("a factory continued from record and dice", SameLedger(s, r))]

RECURSIVE Recorded(_, _)
Recorded(mv, pms) == IF pms = <<>> THEN mv ELSE Recorded(Record(mv, Head(pms)), Tail(pms))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
JRecord(r) ==
  LET all == Recorded(<<>>, r.pms)
      a == Recorded(<<>>, SubSeq(r.pms, 1, r.cut))
      b == Recorded(<<>>, SubSeq(r.pms, r.cut + 1, Len(r.pms))) IN
  F("a step cancels the latest step it takes back", \A i \in 1..Len(r.pms) : r.states[i] = Recorded(<<>>, SubSeq(r.pms, 1, i)))
  \union F("a step takes back exactly its reverse", \A i, j \in 1..Len(r.pms) : r.inv[i][j] = (r.pms[i] = Inverse(r.pms[j])))
  \union F("backward steps are undoings", \A i \in 1..Len(r.pms) : r.undo[i] = IsUndo(r.pms[i]) /\ r.dance[i] = (r.pms[i].src = r.pms[i].dest))
  \union F("its length", r.n = Len(all) /\ r.nothing = (all # <<>>))
  \union F("the steps that reach a point, latest first", \A t \in -1..24 : r.found[t+2] = Rev(SelectSeq(all, LAMBDA p : p.dest = t)))
  \union F("joining two records", r.first = a /\ r.second = b /\ r.after = b /\ r.whole = Recorded(a, b))
  \union F("a copied record is its own", r.twice = Recorded(a, a))

\* ---- B05
RECURSIVE MaxOf(_)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
SrcDice(pos, w, av, i) == {d \in 1..6 : av[d] > 0 /\ StepFrom(pos, w, d, i) # {}}
DestStep(pos, w, d, t) ==   \* steps with die d ending on t
  IF t = OFFB THEN UNION {StepFrom(pos, w, d, i) : i \in OffSrc(pos, w, d)}
  ELSE IF t + d > N THEN {} ELSE {pm \in StepFrom(pos, w, d, t + d) : pm.dest = t}
DestDice(pos, w, av, t) == {d \in 1..6 : av[d] > 0 /\ DestStep(pos, w, d, t) # {}}
RECURSIVE Reach(_, _, _, _, _)
Reach(pos, w, av, i, t) ==  \* one chequer can go from i to t with dice in av
  i > t /\ \E d \in SrcDice(pos, w, av, i) : \E pm \in StepFrom(pos, w, d, i) :
     pm.dest = t \/ (pm.dest > t /\ Reach(Apply(pos, w, pm), w, Spend(av, d), pm.dest, t))
RECURSIVE ChainOk(_, _, _, _, _, _)
ChainOk(pos, w, av, pms, i, t) ==
  IF pms = <<>> THEN i = t
  ELSE LET pm == Head(pms) IN
       /\ pm.src = i /\ pm.die \in 1..6 /\ av[pm.die] > 0 /\ LegalStep(pos, w, pm)
       /\ ChainOk(Apply(pos, w, pm), w, Spend(av, pm.die), Tail(pms), pm.dest, t)
RECURSIVE LatestTo(_, _, _)
LatestTo(mv, i, k) == IF k = 0 THEN 0 ELSE IF mv[k].dest = i THEN k ELSE LatestTo(mv, i, k - 1)
RECURSIVE Retrace(_, _, _)
Retrace(mv, i, t) ==     \* <<>> when retracing the latest steps does not lead exactly to t
  LET k == LatestTo(mv, i, Len(mv)) IN
  IF k = 0 \/ mv[k].src > t THEN <<>>
  ELSE IF mv[k].src = t THEN <<Inverse(mv[k])>>
  ELSE LET rest == Retrace(mv, mv[k].src, t) IN IF rest = <<>> THEN <<>> ELSE <<Inverse(mv[k])>> \o rest
RECURSIVE UndoChain(_, _, _, _)
UndoChain(mv, pms, i, t) ==
  IF pms = <<>> THEN i = t
  ELSE /\ Head(pms).src = i /\ \E k \in 1..Len(mv) : mv[k] = Inverse(Head(pms))
       /\ UndoChain(mv, Tail(pms), Head(pms).dest, t)
JQuery1(r, pos, av, mv, q) ==
  LET w == r.who  res == q.r  yes == res.k \in {"pm", "mv"} IN
  F("asking has no side effect", q.same)
  \union F("a suggestion or a refusal, no exception", res.k \in {"pm", "mv", "no"})
  \union
  CASE q.q = "src" -> LET S == SrcDice(pos, w, av, q.a) IN
         IF S = {} THEN F("refused when no die works", ~yes)
         ELSE F("largest working die from the source", res.k = "pm" /\ res.pms[1] \in StepFrom(pos, w, MaxOf(S), q.a))
    [] q.q = "dest" -> LET S == DestDice(pos, w, av, q.b) IN
         IF S = {} THEN F("refused when no die works", ~yes)
         ELSE F("largest working die to the destination", res.k = "pm" /\ res.pms[1] \in DestStep(pos, w, MaxOf(S), q.b))
    [] q.q = "multi" ->
         IF yes THEN F("a chain is legal from source to destination", res.k = "mv" /\ res.pms # <<>> /\ ChainOk(pos, w, av, res.pms, q.a, q.b))
         ELSE F("a chain is refused only when none exists", q.b = OFFB \/ ~Reach(pos, w, av, q.a, q.b))
    [] q.q = "undo" ->
         IF yes THEN F("an undo retraces recorded steps", res.k = "mv" /\ res.pms # <<>> /\ UndoChain(mv, res.pms, q.a, q.b))
         ELSE F("an undo is refused only when the latest steps do not lead there", Retrace(mv, q.a, q.b) = <<>>)
    [] q.q = "point" ->
         LET S == DestDice(pos, w, av, q.b)
             d1 == MaxOf(S)
             p1 == CHOOSE pm \in DestStep(pos, w, d1, q.b) : TRUE
             pos2 == Apply(pos, w, p1)
             S2 == IF S = {} THEN {} ELSE DestDice(pos2, w, Spend(av, d1), q.b)
         IN IF yes THEN F("two steps make the point", Len(res.pms) = 2 /\ S2 # {} /\ res.pms[1] = p1 /\ res.pms[2] \in DestStep(pos2, w, MaxOf(S2), q.b))
            ELSE F("a point that can be made is found", S2 = {})
JQuery(r) ==
  LET s0 == [who |-> r.who, start |-> r.pos, pos |-> r.pos, rolled |-> r.rolled, av |-> Dice(r.rolled), mv |-> <<>>]
      s == Feed(s0, r.played)
  IN  UNION {JQuery1(r, s.pos, s.av, s.mv, r.out[k]) : k \in 1..Len(r.out)}

\* ---- B06
JPickup(r) ==
  LET s0 == [who |-> r.who, start |-> r.pos, pos |-> r.pos, rolled |-> r.rolled, av |-> Dice(r.rolled), mv |-> <<>>]
      s == Feed(s0, r.played)
      ok == CompletePlayFast(r.pos, r.who, r.rolled, s.pos, s.av)
      passed == [r.before EXCEPT !.rolled = <<0, 0>>, !.on_action = 1 - @, !.on_inner_action = 1 - @]
  IN F("generator: the play is legal", FeedOk(s0, r.played) /\ s.pos = r.now)
     \union F("dice may be picked up exactly after a complete play", r.legal = IF ok THEN "yes" ELSE "no")
     \union F("asking changes nothing", r.same)
     \union F("picking up is refused exactly when not allowed", r.refused = ~ok)
     \union F("picking up passes the turn", r.after = IF ok THEN passed ELSE r.before)

S0 == [who |-> 0, start |-> <<>>, pos |-> <<>>, rolled |-> <<0, 0>>, av |-> Dice(<<0, 0>>), mv |-> <<>>]
Judge(s, r) ==
  IF r.op \in {"begin", "step", "add", "nodie", "consume", "clone"} THEN JLedger(s, r)
  ELSE [st |-> s, bad |-> CASE r.op = "apply" -> JApply(r) [] r.op = "flip" -> JFlip(r) [] r.op = "pred" -> JPred(r) [] r.op = "record" -> JRecord(r)
                            [] r.op = "query" -> JQuery(r) [] r.op = "pickup" -> JPickup(r)]

Init == l = 0 /\ st = S0
Next == /\ l < Len(Trace)
        /\ LET v == Judge(st, Trace[l + 1]) IN
             /\ st' = v.st
             /\ (IF v.bad = {} THEN TRUE ELSE PrintT(<<"@BAD", l + 1, v.bad>>))
        /\ l' = l + 1
        /\ (IF l' < Len(Trace) THEN TRUE ELSE PrintT(<<"@END", l'>>))
Spec == Init /\ [][Next]_<<l, st>>
=============================================================================
