---------------------------------- MODULE FibsText ----------------------------------
(* Reading the fields out of FIBS messages.  A message is a sequence of             *)
(* one-character strings.                                                           *)
EXTENDS Integers, Sequences, FiniteSets
YOU == 0
HIM == 1
OFFB == -1
BARP == 24
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z","_","<",">"}
IsDigit(c) == \E i \in 1..10 : Digit[i] = c
Val(c) == (CHOOSE i \in 1..10 : Digit[i] = c) - 1
RECURSIVE Number(_)
Number(s) == IF s = <<>> THEN 0 ELSE 10 * Number(SubSeq(s, 1, Len(s) - 1)) + Val(s[Len(s)])
\* the decimal numbers of a text, in order
RECURSIVE Numbers(_, _)
Numbers(s, cur) ==
  IF s = <<>> THEN IF cur = <<>> THEN <<>> ELSE <<Number(cur)>>
  ELSE IF IsDigit(Head(s)) THEN Numbers(Tail(s), Append(cur, Head(s)))
  ELSE (IF cur = <<>> THEN <<>> ELSE <<Number(cur)>>) \o Numbers(Tail(s), <<>>)
RECURSIVE NameOf(_)
NameOf(s) == IF s = <<>> \/ Head(s) \notin Letters THEN <<>> ELSE <<Head(s)>> \o NameOf(Tail(s))
RECURSIVE Words(_, _)
Words(s, cur) == IF s = <<>> THEN <<cur>> ELSE IF Head(s) = " " THEN <<cur>> \o Words(Tail(s), <<>>) ELSE Words(Tail(s), Append(cur, Head(s)))
After(s, n) == SubSeq(s, n + 1, Len(s))
Accepts == <<" ", "a", "c", "c", "e", "p", "t", "s">>
None == <<"<none>">>
Name(s) == IF NameOf(s) = <<>> THEN None ELSE NameOf(s)
Taker(s) == LET n == NameOf(s) IN IF n # <<>> /\ Len(s) >= Len(n) + 8 /\ SubSeq(s, Len(n) + 1, Len(n) + 8) = Accepts THEN n ELSE None
\* "src-dest" with an optional star: points counted from your side
RECURSIVE DashAt(_, _)
DashAt(w, i) == IF w[i] = "-" THEN i ELSE DashAt(w, i + 1)
Point(s, who) == IF s = <<"b", "a", "r">> THEN BARP ELSE IF s = <<"o", "f", "f">> THEN OFFB
                 ELSE IF who = YOU THEN Number(s) - 1 ELSE 24 - Number(s)
Step(w, who) == LET d == DashAt(w, 1)
                    hit == w[Len(w)] = "*"
                    src == Point(SubSeq(w, 1, d - 1), who)
                    dst == Point(SubSeq(w, d + 1, IF hit THEN Len(w) - 1 ELSE Len(w)), who)
                IN [die |-> src - dst, src |-> src, dest |-> dst, hit |-> hit]
\* "<name> moves a-b c-d ... ."
Moves(s, who) == LET ws == Words(s, <<>>) IN [i \in 1 .. Len(ws) - 3 |-> Step(ws[i + 2], who)]
================================================================================
