------------------------------------- MODULE MCHtml -------------------------------------
(* Every text of bounded length over an alphabet of the characters that matter; grown one *)
(* character at a time.                                                                   *)
EXTENDS Html, TLC
CONSTANTS MaxLen
VARIABLES s, open
Alpha == {"<", ">", "&", "l", "t", ";", "\n", "a"}
Init == s = <<>> /\ open = <<>>
Tags == {[e |-> e, n |-> n] : e \in {"o", "c", "s"}, n \in {"p", "b"}}
Next == \/ Len(s) < MaxLen /\ open = <<>> /\ (\E c \in Alpha : s' = Append(s, c)) /\ UNCHANGED open
        \/ s = <<>> /\ Len(open) < MaxLen /\ (\E t \in Tags : open' = Append(open, t)) /\ UNCHANGED s
Spec == Init /\ [][Next]_<<s, open>>
Inverse == Unescape(Escape(s)) = s
Safe == NoMarkup(Escape(s))
Plain == (NoMarkup(s) /\ "&" \notin {s[i] : i \in 1..Len(s)}) => Escape(s) = s
Idempotent == Normal(Normal(s)) = Normal(s)
Keeps == Visible(Normal(s)) = Visible(s)
SameVisible == SameHtml(s, Visible(s)) /\ SameHtml(Normal(s), s)
\* breaking a balanced fragment: one tag more or less is never balanced
Fragile == (open # <<>> /\ Closed(open, <<>>) /\ open[Len(open)].e # "s") => ~Closed(SubSeq(open, 1, Len(open) - 1), <<>>)
=========================================================================================
