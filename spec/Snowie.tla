------------------------------------- MODULE Snowie -------------------------------------
(* Snowie text records: which sequences of lines are a match record, and its games.      *)
(*                                                                                       *)
(* Lines come in kinds: "length" ( 5 point match), "game" ( Game 3), "player" (the two   *)
(* names and scores), "move" with its number n, "result" (Wins ...), "blank", "bad".     *)
(* At names the last line that counts; "free" = the format leaves open what follows      *)
(* (a record starting with a blank line).                                                *)
EXTENDS Integers, Sequences
Start == [at |-> "start", n |-> 0]
\* verdict of one line in state s: "yes" it belongs, "no" it does not, "open" not settled by the format
Verdict(s, k, n) ==
  IF s.at = "free" THEN "open"
  ELSE CASE k = "bad" -> "no"
         [] k = "length" -> IF s.at = "start" THEN "yes" ELSE "no"
         [] k = "game" -> IF s.at \in {"length", "blank", "move"} THEN "yes" ELSE "no"
         [] k = "player" -> IF s.at = "game" THEN "yes" ELSE "no"
         [] k = "move" -> IF (s.at = "player" /\ n = 1) \/ (s.at = "move" /\ n = s.n + 1) THEN "yes" ELSE "no"
         [] k = "blank" -> IF s.at = "start" THEN "open" ELSE "yes"
         [] k = "result" -> IF s.at = "move" THEN "yes" ELSE "open"
After(s, k, n) ==
  CASE s.at = "free" -> s
    [] k = "result" -> s
    [] k = "blank" /\ s.at = "start" -> [at |-> "free", n |-> 0]
    [] OTHER -> [at |-> k, n |-> IF k = "move" THEN n ELSE 0]

(* Reading line by line: the number of the first line that must be refused (0: none) and *)
(* of the first that is open (0: none).                                                  *)
RECURSIVE Read(_, _, _, _)
Read(ls, i, s, open) ==
  IF i > Len(ls) THEN [refuse |-> 0, open |-> open]
  ELSE LET v == Verdict(s, ls[i].k, ls[i].n)
       IN IF v = "no" THEN [refuse |-> i, open |-> open]
          ELSE Read(ls, i + 1, After(s, ls[i].k, ls[i].n), IF v = "open" /\ open = 0 THEN i ELSE open)

(* The same language, declared without a state machine.                                  *)
Sig(ls, i) == {j \in 1..(i - 1) : ls[j].k # "result"}
Prev(ls, i) == LET c == Sig(ls, i) IN IF c = {} THEN [k |-> "start", n |-> 0] ELSE ls[CHOOSE j \in c : \A m \in c : m <= j]
Belongs(ls, i) ==
  LET p == Prev(ls, i)  x == ls[i] IN
  \/ x.k = "length" /\ i = 1
  \/ x.k = "game" /\ p.k \in {"length", "blank", "move"}
  \/ x.k = "player" /\ p.k = "game"
  \/ x.k = "move" /\ (IF p.k = "move" THEN x.n = p.n + 1 ELSE p.k = "player" /\ x.n = 1)
  \/ x.k = "result" /\ p.k = "move"
  \/ x.k = "blank" /\ i > 1
WellFormed(ls) == \A i \in 1..Len(ls) : Belongs(ls, i)

(* The games of a record: every game's lines (results included, blanks not), each headed *)
(* by the match length line.  A result after a blank is not part of the layout.          *)
RECURSIVE Games(_, _)
Games(ls, acc) ==
  IF ls = <<>> THEN acc
  ELSE LET x == Head(ls)
       IN Games(Tail(ls), IF x.k \in {"length", "blank"} THEN acc
                          ELSE IF x.k = "game" THEN Append(acc, <<x.t>>)
                          ELSE [acc EXCEPT ![Len(acc)] = Append(@, x.t)])
=========================================================================================
