------------------------------------ MODULE MCDevice -------------------------------------
(* A device that keeps what it has loaded (pictures by file, size and direction; fonts by   *)
(* file and size) carries out the same operations as one that loads everything anew, and a  *)
(* text always lies inside its box, in the middle, in the largest size that fits.            *)
EXTENDS Device, TLC
CONSTANTS URIS, SIZES, MAXH, STEPS
VARIABLES kept, ops, calls, open, steps
vars == <<kept, ops, calls, open, steps>>
mts == {[a |-> 1, b |-> 2, p |-> 1, q |-> 1], [a |-> 2, b |-> 3, p |-> 5, q |-> 4], [a |-> 0, b |-> 1, p |-> 3, q |-> 4]}
mt == [a |-> 1, b |-> 2, p |-> 1, q |-> 1]
rgba == {"a"}
C(c, x, y, w, h, t, n, flip) == [c |-> c, x |-> x, y |-> y, w |-> w, h |-> h, t |-> t, n |-> n, f |-> "font", k |-> "red", flip |-> flip, pts |-> <<>>]
Init == kept = {} /\ ops = <<>> /\ calls = <<>> /\ open = FALSE /\ steps = 0
Start == ~open /\ open' = TRUE /\ ops' = <<>> /\ calls' = <<>> /\ UNCHANGED kept
End == open /\ open' = FALSE /\ UNCHANGED <<kept, ops, calls>>
\* pasting: what is kept under the key, or loaded now and kept
Paste(u, s, fl) ==
  LET key == <<u, s, fl>>
      old == {k \in kept : k.key = key}
      img == IF old # {} THEN (CHOOSE k \in old : TRUE).img ELSE [t |-> u, w |-> s, h |-> s, flip |-> fl]
  IN /\ open
     /\ calls' = Append(calls, C("image", 3, 4, s, s, u, 0, fl))
     /\ kept' = kept \union {[key |-> key, img |-> img]}
     /\ ops' = Append(ops, [Op("paste", <<3, 4, 3 + img.w, 4 + img.h>>, img.t, "", 0, "") EXCEPT !.flip = img.flip, !.mask = img.t \in rgba])
     /\ UNCHANGED open
\* text: sizes are tried downwards
RECURSIVE Try(_, _, _, _)
Try(n, w, h, s) == IF Fits(mt, n, w, h, s) THEN s ELSE IF s - 1 < Smallest THEN 0 ELSE Try(n, w, h, s - 1)
Write(n, w, h) ==
  LET s == Try(n, w, h, h)
      c == C("text", 1, 2, w, h, "txt", n, FALSE)
  IN /\ open
     /\ calls' = Append(calls, c)
     /\ ops' = IF s = 0 THEN ops ELSE Append(ops, TextAt(mt, c, s))
     /\ UNCHANGED <<kept, open>>
Next == /\ steps < STEPS /\ steps' = steps + 1
        /\ \/ Start \/ End
           \/ \E u \in URIS, s \in SIZES, fl \in BOOLEAN : Paste(u, s, fl)
           \/ \E n \in {1, 2}, w \in {6, 20}, h \in {5, 12} : Write(n, w, h)
Spec == Init /\ [][Next]_vars
Same == Carries(mt, rgba, calls, ops)
Clean == open /\ calls = <<>> => ops = <<>>
\* in the middle of the box, as large as can be: for all fonts, lengths and boxes
ASSUME \A m \in mts, n \in 1..4, w \in 0..MAXH, h \in 8..MAXH :
  LET c == C("text", 5, 7, w, h, "txt", n, FALSE) IN
  \A way \in Ways(m, {}, c) : way # <<>> =>
    LET o == way[1]
        right == o.box[1] + TextW(m, n, o.s)
        low == o.box[2] + TextH(m, o.s)
    IN /\ o.box[1] >= c.x /\ o.box[2] >= c.y /\ right <= c.x + w /\ low <= c.y + h
       /\ (c.x + w - right) - (o.box[1] - c.x) \in {0, 1} /\ (c.y + h - low) - (o.box[2] - c.y) \in {0, 1}
       /\ \A s \in o.s+1..h : ~Fits(m, n, w, h, s)
==========================================================================================
