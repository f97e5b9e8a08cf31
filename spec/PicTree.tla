------------------------------------- MODULE PicTree -------------------------------------
(* The elements of the picture of a board (bglib.image.base.ElementTree).  A board is      *)
(* [pos, cube, owner, doubled, on, inner, rolled, offer, score, length, crawford]: pos,    *)
(* score are pairs <<YOU, HIM>>; pos[w][i] the chequers of w on w's point i, the last      *)
(* entry those on the bar; owner, on, inner are "you", "him" or "center" (owner only).     *)
(* The picture is seen by YOU: HIM's point i is YOU's point N+1-i.                          *)
(* An item is [w, k, a, d]: where it is, its kind ("#" for text), attribute and text.      *)
EXTENDS Sequences, Naturals, FiniteSets, TLC
You == "you"
Him == "him"
Players == <<You, Him>>
Other(p) == IF p = You THEN Him ELSE You
It(w, k, a, d) == [w |-> w, k |-> k, a |-> a, d |-> d]
At(name, p) == name \o ":" \o p
N(b) == Len(b.pos[1]) - 1
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
If(c, s) == IF c THEN s ELSE <<>>
\* chequers on a point, the bar, borne off
Chequers(w, p, n) == If(n # 0, <<It(w, "chequer", p, ToString(n))>>)
OnBoard(b, total) ==
  Flat([i \in 1..N(b) |-> Chequers(At("point", ToString(i)), You, b.pos[1][i]) \o Chequers(At("point", ToString(i)), Him, b.pos[2][N(b) + 1 - i])])
  \o Flat([w \in 1..2 |-> Chequers(At("bar", Players[w]), Players[w], b.pos[w][N(b) + 1])])
  \o Flat([w \in 1..2 |-> Chequers(At("home", Players[w]), Players[w], total - Sum(b.pos[w]))])
Rolled(b) == b.rolled # <<0, 0>>
\* a cube that has been turned and waits for the answer lies in front of the player who answers
Pending(b) == b.doubled /\ b.inner # b.on
Offered(b) == ~Rolled(b) /\ ~b.doubled /\ b.inner # b.on
\* the answer to a double comes before the roll; nothing else can be shown of a player who acts out of turn
Refused(b) == Offered(b) /\ b.offer \notin {1, 2, 3}
CubeAt(b) == IF b.owner = "center" THEN "cubeholder" ELSE At("home", b.owner)
Cube(b) ==
  IF Pending(b) THEN If(~Rolled(b), <<It(At("field", b.inner), "cube", "", ToString(b.cube + 1))>>)
  ELSE <<It(CubeAt(b), "cube", "", ToString(b.cube))>>
Dice(b) == If(Rolled(b), <<It(At("field", b.on), "die", "right", ToString(b.rolled[1])), It(At("field", b.on), "die", "left", ToString(b.rolled[2]))>>)
Resign(b) == If(Offered(b), <<It(At("field", b.inner), "resign", "", ToString(b.offer))>>)
Name(p) == IF p = You THEN "you" ELSE "he"
Obj(p) == p
Poss(p) == IF p = You THEN "your" ELSE "his"
Action(b) ==
  IF Rolled(b) THEN Obj(b.on) \o " to move."
  ELSE IF ~b.doubled THEN (IF b.inner = b.on THEN Obj(b.on) \o " to roll or double." ELSE Obj(b.inner) \o " to accept " \o Poss(b.on) \o " resignation or not.")
  ELSE IF b.inner # b.on THEN Name(b.on) \o " doubled. " \o Obj(b.inner) \o " to take or drop."
  ELSE Name(b.on) \o " doubled. " \o Name(Other(b.on)) \o " took. " \o Obj(b.on) \o " to roll."
Actor(b) == IF Rolled(b) THEN b.on ELSE b.inner
Match(b) ==
  <<It("length", "#", "", ToString(b.length)), It("crawford", "#", "", IF b.crawford THEN "True" ELSE "False")>>
  \o [w \in 1..2 |-> It(At("score", Players[w]), "#", "", ToString(b.score[w]))]
  \o <<It("action", "#", "", Action(b))>>
Items(b, total) == Match(b) \o OnBoard(b, total) \o Cube(b) \o Dice(b) \o Resign(b)
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Rng(s) == {s[i] : i \in 1..Len(s)}
SameBag(s, t) == Len(s) = Len(t) /\ Rng(s) = Rng(t) /\ \A x \in Rng(s) : Count(s, x) = Count(t, x)
==========================================================================================
