-------------------------------------- MODULE MCDraw -------------------------------------
(* Every element of small styled trees drawn one after another on pages of several sizes.   *)
EXTENDS Draw
CONSTANTS Counts, Maxes, Offs, Bounds, Eyes
MCBounds == {<<16, 8>>, <<100, 9>>, <<7, 90>>}
MCOffsT == {-1, 0, 1, 2}
MCBoundsT == {<<16, 8>>, <<32, 100>>, <<100, 9>>, <<7, 90>>, <<1, 1>>, <<163, 81>>}
VARIABLES es, m, bound, next, calls
vars == <<es, m, bound, next, calls>>
W == 16
H == 8
E0 == [kind |-> "board", par |-> 0, d |-> "", x |-> 0, y |-> 0, w |-> W, h |-> H, xo |-> 0, yo |-> 0, xo2 |-> 0, yo2 |-> 0, eye |-> No, max |-> No, image |-> "", back |-> "green",
       color |-> "", font |-> "f", style |-> "dot", text |-> "", initial |-> "", flip |-> FALSE, fill |-> TRUE, hide |-> FALSE]
Point(flip, fill) == [E0 EXCEPT !.kind = "point", !.par = 1, !.d = "1", !.x = 4, !.w = 2, !.h = 5, !.back = "", !.color = "red", !.flip = flip, !.fill = fill]
Chequer(n, mx, o, o2, image, hide) == [E0 EXCEPT !.kind = "chequer", !.par = 2, !.d = ToString(n), !.x = 4, !.w = 2, !.h = 2, !.back = "", !.color = "white", !.yo = o, !.xo2 = o2, !.max = mx, !.image = image, !.hide = hide]
Die(n, e) == [E0 EXCEPT !.kind = "die", !.par = 1, !.d = ToString(n), !.x = 8, !.y = 2, !.w = 4, !.h = 4, !.back = "white", !.color = "black", !.eye = e]
Cube(n, i) == [E0 EXCEPT !.kind = "cube", !.par = 1, !.d = ToString(n), !.x = 12, !.w = 2, !.h = 2, !.back = "", !.color = "black", !.initial = i]
Resign(n, image) == [E0 EXCEPT !.kind = "resign", !.par = 1, !.d = ToString(n), !.x = 1, !.w = 2, !.h = 2, !.xo = 1, !.back = "", !.color = "black", !.image = image]
Trees == {<<E0, Point(fl, TRUE), Chequer(n, mx, o, o2, im, hd), Die(1, 1), Cube(0, "")>> : fl \in {TRUE, FALSE}, n \in Counts, mx \in Maxes, o \in Offs, o2 \in Offs, im \in {"", "c.png"}, hd \in {TRUE, FALSE}}
         \union {<<E0, Point(FALSE, fi), Chequer(2, 5, 1, 0, "", FALSE), Die(n, e), Cube(c, i), Resign(q, im)>> : fi \in {TRUE, FALSE}, n \in 1..6, e \in Eyes, c \in 0..6, i \in {"", "64"}, q \in 1..3, im \in {"", "r.png"}}
Init == /\ es \in Trees /\ bound \in Bounds
        /\ m = Mag(W, H, bound[1], bound[2]) /\ next = 1 /\ calls = <<>>
Step == /\ next <= Len(es)
        /\ calls' = calls \o Back(m, es[next]) \o Own(m, es, next)
        /\ next' = next + 1 /\ UNCHANGED <<es, m, bound>>
Spec == Init /\ [][Step]_vars
(* ------------------------------------ properties -------------------------------------*)
Sel(c) == SelectSeq(calls, LAMBDA x : x.c = c)
Done == next > Len(es)
Find(k) == es[CHOOSE i \in 1..Len(es) : es[i].kind = k]
\* the board fits and touches the page on one side (up to the truncation)
Fits == next = 1 \/ LET r == calls[1] IN r.c = "rect" /\ r.w <= bound[1] /\ r.h <= bound[2] /\ (r.w = bound[1] \/ r.h = bound[2])
Ch == Find("chequer")
ChequerCount == ~Done \/ LET n == Num(Ch.d) IN
   Min(n, Ch.max) = (IF Ch.image # "" THEN Len(SelectSeq(calls, LAMBDA x : x.c = "image" /\ x.t = Ch.image)) ELSE Len(SelectSeq(calls, LAMBDA x : x.c = "ellipse" /\ x.k = "white")))
ManyShown == ~Done \/ ((\E i \in 1..Len(calls) : calls[i].c = "text" /\ calls[i].t = Ch.d /\ calls[i].k = "white") <=> (Num(Ch.d) > Ch.max /\ ~Ch.hide))
DieInside == ~Done \/ LET d == SelectSeq(calls, LAMBDA x : x.c = "ellipse" /\ x.k = "black")
                          e == Find("die") IN
   /\ Len(d) = Num(e.d)
   /\ \A i \in 1..Len(d) : d[i].x >= Sc(m, e.x) /\ d[i].y >= Sc(m, e.y) /\ d[i].x + d[i].w <= Sc(m, e.x) + Sc(m, e.w) + 1 /\ d[i].y + d[i].h <= Sc(m, e.y) + Sc(m, e.h) + 1
   /\ \A i, j \in 1..Len(d) : i = j \/ (m.num >= m.den => <<d[i].x, d[i].y>> # <<d[j].x, d[j].y>>)
CubeText == ~Done \/ \E i \in 1..Len(calls) : calls[i].c = "text" /\ calls[i].t = (IF Find("cube").d = "0" /\ Find("cube").initial # "" THEN Find("cube").initial ELSE ToString(Pow2(Num(Find("cube").d))))
\* drawing is what the relation used to judge real drawings accepts, and nothing else is
Accepted == ~Done \/ (Draws(m, es, 1, calls, 1) /\ ~Draws(m, es, 1, Append(calls, calls[1]), 1) /\ ~Draws(m, es, 1, Tail(calls), 1) /\ Wanted(m, es, 1) = calls)
==========================================================================================
