-------------------------------------- MODULE Device -------------------------------------
(* The picture device (bglib.image.PIL): what each drawing call does to the canvas.         *)
(* A call is [c, x, y, w, h, t, f, k, flip, pts] as in Draw.tla.  mt describes the fonts:    *)
(* a text of n letters at size s is (s*n*a) div b wide and (s*p) div q high.  An operation   *)
(* on the canvas is [op, box, t, f, s, k, flip, mask, pts].                                  *)
EXTENDS Integers, Sequences, FiniteSets
TextW(mt, n, s) == (s * n * mt.a) \div mt.b
TextH(mt, s) == (s * mt.p) \div mt.q
Fits(mt, n, w, h, s) == TextW(mt, n, s) < w /\ TextH(mt, s) < h
Smallest == 8
Sizes(mt, n, w, h) == {s \in Smallest..h : Fits(mt, n, w, h, s)}
Biggest(S) == CHOOSE s \in S : \A u \in S : u <= s
Op(op, box, t, f, s, k) == [op |-> op, box |-> box, t |-> t, f |-> f, s |-> s, k |-> k, flip |-> FALSE, mask |-> FALSE, pts |-> <<>>]
TextAt(mt, c, s) == Op("text", <<c.x + (c.w - TextW(mt, c.n, s)) \div 2, c.y + (c.h - TextH(mt, s)) \div 2>>, c.t, c.f, s, c.k)
\* the ways a call may be carried out (a text in a box lower than the smallest font may be left out)
Ways(mt, rgba, c) ==
  CASE c.c = "text" -> (LET S == Sizes(mt, c.n, c.w, c.h) IN
                          IF S # {} THEN {<<TextAt(mt, c, Biggest(S))>>}
                          ELSE {<<>>} \union (IF c.h > 0 /\ c.h < Smallest /\ Fits(mt, c.n, c.w, c.h, c.h) THEN {<<TextAt(mt, c, c.h)>>} ELSE {}))
    [] c.c = "rect" -> {<<Op("rect", <<c.x, c.y, c.x + c.w - 1, c.y + c.h - 1>>, "", "", 0, c.k)>>}
    [] c.c = "ellipse" -> {<<Op("ellipse", <<c.x, c.y, c.x + c.w, c.y + c.h>>, "", "", 0, c.k)>>}
    [] c.c = "polygon" -> {<<[Op("polygon", <<>>, "", "", 0, c.k) EXCEPT !.pts = c.pts]>>}
    [] c.c = "image" -> {<<[Op("paste", <<c.x, c.y, c.x + c.w, c.y + c.h>>, c.t, "", 0, "") EXCEPT !.flip = c.flip, !.mask = c.t \in rgba]>>}
\* ops are the calls carried out in order
RECURSIVE Carries(_, _, _, _)
Carries(mt, rgba, calls, ops) ==
  IF calls = <<>> THEN ops = <<>>
  ELSE \E w \in Ways(mt, rgba, Head(calls)) :
         /\ Len(w) <= Len(ops) /\ SubSeq(ops, 1, Len(w)) = w
         /\ Carries(mt, rgba, Tail(calls), SubSeq(ops, Len(w) + 1, Len(ops)))
==========================================================================================
