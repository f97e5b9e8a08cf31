-------------------------------- MODULE MCFibsText --------------------------------
(* A message composed from fields reads back as those fields: every point pair,     *)
(* star, and player.                                                                *)
EXTENDS FibsText, TLC
VARIABLES src, dst, hit, who, name
Dig(n) == IF n < 10 THEN <<Digit[n + 1]>> ELSE <<Digit[n \div 10 + 1], Digit[(n % 10) + 1]>>
Show(i, w) == IF i = BARP THEN <<"b", "a", "r">> ELSE IF i = OFFB THEN <<"o", "f", "f">> ELSE Dig(IF w = YOU THEN i + 1 ELSE 24 - i)
Msg == name \o <<" ", "m", "o", "v", "e", "s", " ">> \o Show(src, who) \o <<"-">> \o Show(dst, who) \o (IF hit THEN <<"*">> ELSE <<>>)
       \o <<" ">> \o Show(src, who) \o <<"-">> \o Show(dst, who) \o <<" ", ".">>
Init == /\ src \in 0..24 /\ dst \in -1..23 /\ src > dst /\ src - dst <= 6
        /\ hit \in (IF dst = -1 THEN {FALSE} ELSE BOOLEAN) /\ who \in {YOU, HIM} /\ name \in {<<"Y", "o", "u">>, <<"a", "_", "<">>}
Next == UNCHANGED <<src, dst, hit, who, name>>
Spec == Init /\ [][Next]_<<src, dst, hit, who, name>>
Reads == Moves(Msg, who) = <<[die |-> src - dst, src |-> src, dest |-> dst, hit |-> hit], [die |-> src - dst, src |-> src, dest |-> dst, hit |-> FALSE]>>
Names == Name(Msg) = name /\ Taker(name \o Accepts) = name /\ Taker(Msg) = None /\ Name(<<" ">> \o Msg) = None
Nums == LET m == Dig(src) \o <<"-">> \o Dig(dst + 1) IN Numbers(m, <<>>) = <<src, dst + 1>>
================================================================================
