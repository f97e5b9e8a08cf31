--------------------------------------- MODULE Draw --------------------------------------
(* Drawing a styled element tree (bglib.image.draw, the draw methods of                     *)
(* bglib.image.base).  Elements come in document order with their effective attributes:     *)
(* [kind, par, d, x, y, w, h, xo, yo, xo2, yo2, eye, max, image, back, color, font, style,  *)
(* text, initial, flip, fill, hide].  d is the text in the element; "" and No stand for     *)
(* attributes that are not set.  A call is [c, x, y, w, h, t, f, k, flip].  All lengths are  *)
(* scaled by the one factor num/den and truncated.                                           *)
EXTENDS Sequences, Integers, FiniteSets, TLC
No == 1000001
Abs(n) == IF n < 0 THEN -n ELSE n
Sc(m, v) == IF v < 0 THEN -((-v * m.num) \div m.den) ELSE (v * m.num) \div m.den
\* the greatest factor with which a board of w by h fits in bx by by
Mag(w, h, bx, by) == IF bx * h <= by * w THEN [num |-> bx, den |-> w] ELSE [num |-> by, den |-> h]
Call(c, p, s, t, f, k, flip) == [c |-> c, x |-> p[1], y |-> p[2], w |-> s[1], h |-> s[2], t |-> t, f |-> f, k |-> k, flip |-> flip, pts |-> {}]
Image(p, s, uri, flip) == Call("image", p, s, uri, "", "", flip)
Txt(p, s, t, e) == Call("text", p, s, t, e.font, e.color, FALSE)
Dot(p, s, k) == Call("ellipse", p, s, "", "", k, FALSE)
\* a point is a triangle, hanging when flipped
Tri(p, s, k, flip) ==
  [Call("polygon", <<0, 0>>, <<0, 0>>, "", "", k, FALSE) EXCEPT !.pts =
     IF flip THEN {<<p[1], p[2]>>, <<p[1] + s[1], p[2]>>, <<p[1] + s[1] \div 2, p[2] + s[2]>>}
     ELSE {<<p[1], p[2] + s[2]>>, <<p[1] + s[1], p[2] + s[2]>>, <<p[1] + s[1] \div 2, p[2]>>}]
Pos(m, e) == <<Sc(m, e.x), Sc(m, e.y)>>
Size(m, e) == <<Sc(m, e.w), Sc(m, e.h)>>
Nums == [s \in {ToString(n) : n \in 0..64} |-> CHOOSE n \in 0..64 : ToString(n) = s]
Num(s) == Nums[s]
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Min(a, b) == IF a < b THEN a ELSE b
(* --------------------------------------- dice ----------------------------------------*)
Spots(n) == CASE n = 1 -> {<<2, 2>>} [] n = 2 -> {<<3, 1>>, <<1, 3>>} [] n = 3 -> {<<3, 1>>, <<2, 2>>, <<1, 3>>} [] n = 4 -> {<<1, 1>>, <<1, 3>>, <<3, 1>>, <<3, 3>>}
              [] n = 5 -> {<<1, 1>>, <<1, 3>>, <<3, 1>>, <<3, 3>>, <<2, 2>>} [] n = 6 -> {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<3, 1>>, <<3, 2>>, <<3, 3>>}
SetToSeq(S) == LET RECURSIVE f(_)
                   f(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o f(T \ {x})
               IN f(S)
Dots(m, e) ==
  LET p == Pos(m, e)
      s == Size(m, e)
      o == <<Sc(m, e.eye), Sc(m, e.eye)>>
      at(k, q) == p[k] + (s[k] * q) \div 4 - o[k] \div 2
      ps == SetToSeq(Spots(Num(e.d)))
  IN [i \in 1..Len(ps) |-> Dot(<<at(1, ps[i][1]), at(2, ps[i][2])>>, o, e.color)]
(* ------------------------------------- chequers --------------------------------------*)
\* from one chequer to the next; over the edge of the holder the second offset is added
Next1(m, e, holder, p) ==
  LET q == <<p[1] + Sc(m, e.xo), p[2] + Sc(m, e.yo)>>
      s == Size(m, e)
  IN IF q[1] + s[1] > Sc(m, holder.x) + Sc(m, holder.w) \/ q[2] + s[2] > Sc(m, holder.y) + Sc(m, holder.h)
     THEN <<q[1] + Sc(m, e.xo2), q[2] + Sc(m, e.yo2)>> ELSE q
RECURSIVE Stack(_, _, _, _, _)
Stack(m, e, holder, p, n) ==
  IF n = 0 THEN (IF e.font # "" /\ ~e.hide /\ Num(e.d) > e.max THEN <<Txt(p, Size(m, e), e.d, [e EXCEPT !.color = IF @ = "" THEN "white" ELSE @])>> ELSE <<>>)
  ELSE <<IF e.image # "" THEN Image(p, Size(m, e), e.image, e.flip) ELSE Dot(p, Size(m, e), e.color)>> \o Stack(m, e, holder, Next1(m, e, holder, p), n - 1)
(* ------------------------------------- elements --------------------------------------*)
ResignWord == <<"single", "gammon", "backgammon">>
Body(m, e, holder) ==
  LET p == Pos(m, e)
      s == Size(m, e) IN
  IF e.kind = "chequer" THEN Stack(m, e, holder, p, Min(Num(e.d), e.max))
  ELSE IF e.kind = "resign" /\ e.image # "" THEN [i \in 1..Num(e.d) |-> Image(<<p[1] + i * Sc(m, e.xo), p[2] + i * Sc(m, e.yo)>>, s, e.image, FALSE)]
  ELSE IF e.image # "" THEN <<Image(p, s, e.image, e.flip)>>
  ELSE CASE e.kind \in {"action", "length", "score"} -> IF e.font = "" THEN <<>> ELSE <<Txt(p, s, e.d, e)>>
         [] e.kind = "crawford" -> IF e.font # "" /\ e.d = "True" THEN <<Txt(p, s, "*", e)>> ELSE <<>>
         [] e.kind = "field" -> IF e.font # "" /\ e.text # "" THEN <<Txt(p, s, e.text, e)>> ELSE <<>>
         [] e.kind = "die" -> IF e.style = "numeric" THEN <<Txt(p, s, e.d, e)>> ELSE Dots(m, e)
         [] e.kind = "cube" -> <<Txt(p, s, IF e.d = "0" /\ e.initial # "" THEN e.initial ELSE ToString(Pow2(Num(e.d))), e)>>
         [] e.kind = "resign" -> <<Txt(p, s, ResignWord[Num(e.d)], e)>>
         [] e.kind = "point" -> <<Tri(p, s, IF e.fill THEN e.color ELSE "", e.flip)>>
         [] OTHER -> <<>>
\* what one element puts down: its background first, then itself if it has an image or a colour
Back(m, e) == IF e.back = "" THEN <<>> ELSE <<Call("rect", Pos(m, e), Size(m, e), "", "", e.back, FALSE)>>
Own(m, es, i) == LET e == es[i] IN IF e.image = "" /\ e.color = "" THEN <<>> ELSE Body(m, e, IF e.par = 0 THEN e ELSE es[e.par])
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Count(s, s[i]) = Count(t, s[i])
\* a sequence of calls is a drawing of the elements from the i-th on: element by element; the dots of a die in any order
RECURSIVE Draws(_, _, _, _, _)
Draws(m, es, i, calls, k) ==
  IF i > Len(es) THEN k > Len(calls)
  ELSE LET b == Back(m, es[i])
           o == Own(m, es, i)
           n == Len(b) + Len(o)
           got == SubSeq(calls, k, k + n - 1) IN
       /\ k + n - 1 <= Len(calls)
       /\ SubSeq(got, 1, Len(b)) = b
       /\ LET g == SubSeq(got, Len(b) + 1, n) IN IF es[i].kind = "die" THEN SameBag(g, o) ELSE g = o
       /\ Draws(m, es, i + 1, calls, k + n)
RECURSIVE Wanted(_, _, _)
Wanted(m, es, i) == IF i > Len(es) THEN <<>> ELSE Back(m, es[i]) \o Own(m, es, i) \o Wanted(m, es, i + 1)
\* the same but for where and how big: only what and in which order
Gist(c) == [c |-> c.c, t |-> c.t, f |-> c.f, k |-> c.k, flip |-> c.flip]
==========================================================================================
