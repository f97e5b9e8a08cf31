------------------------------------- MODULE MCStyle ------------------------------------
(* Every sheet of a few rules over a small vocabulary, applied to a tree with nested       *)
(* elements of several kinds.                                                              *)
EXTENDS Style
CONSTANTS MaxRules
VARIABLES rules
Sel(e, n, v, d) == [e |-> e, n |-> n, v |-> v, d |-> d]
Sels == {<<Sel("point", "", "", "")>>, <<Sel("point", "parity", "odd", "")>>, <<Sel("point", "", "", "2")>>, <<Sel("point", "flip", "True", "")>>, <<Sel("chequer", "", "", "")>>,
         <<Sel("point", "x", "7", ""), Sel("chequer", "", "", "")>>, <<Sel("position", "", "", ""), Sel("chequer", "player", "him", "")>>,
         <<Sel("board", "", "", ""), Sel("point", "x", "red", "")>>, <<Sel("match", "", "", ""), Sel("chequer", "", "", "")>>, <<Sel("board", "", "", "")>>}
Blocks == {<<[n |-> "x", v |-> "7"]>>, <<[n |-> "x", v |-> "0"]>>, <<[n |-> "flip", v |-> "True"]>>, <<[n |-> "color", v |-> "red"], [n |-> "x", v |-> "12"]>>, <<[n |-> "x", v |-> "red"]>>}
AllRules == {[sel |-> s, block |-> b] : s \in Sels, b \in Blocks}
Tree0 == [kind |-> <<"board", "position", "point", "chequer", "point", "chequer">>, par |-> <<0, 1, 2, 3, 2, 5>>,
          data |-> << <<>>, <<>>, <<"1">>, <<"3">>, <<"2">>, <<"1">> >>,
          own |-> << [a \in {} |-> ""], [a \in {} |-> ""], [parity |-> "str:odd"], [player |-> "str:you"], [parity |-> "str:even"], [player |-> "str:him"] >>, ok |-> TRUE]
Init == rules = <<>>
Next == Len(rules) < MaxRules /\ \E r \in AllRules : rules' = Append(rules, r)
Spec == Init /\ [][Next]_rules
D == "d"
R == ApplySheet(Tree0, D, rules)
Prev == ApplySheet(Tree0, D, SubSeq(rules, 1, Len(rules) - 1))
Lst == rules[Len(rules)]
\* adding a rule changes only elements it matches, only in its attributes
OnlyMatched == (rules # <<>> /\ R.ok) => \A i \in 1..6 : \A a \in DOMAIN R.own[i] :
  (a \notin DOMAIN Prev.own[i] \/ R.own[i][a] # Prev.own[i][a]) => a \in BlockAttrs(Lst.block) \/ \E k \in 1..Len(Lst.sel) : Lst.sel[k].e # Tree0.kind[i]
\* where the last rule matches in the end (its conditions being about type, text or ancestors), its values hold
LastWins == (rules # <<>> /\ R.ok /\ Lst.sel[Len(Lst.sel)].n = "") => \A i \in 1..6 : RuleMatch(R, i, Lst.sel) =>
  \A a \in BlockAttrs(Lst.block) : R.own[i][a] = Convert(AttrsOf(R.kind[i])[a], D, BlockValue(Lst.block, a))
NotMatchedKept == R.ok => \A i \in 1..6 : (\A k \in 1..Len(rules) : rules[k].sel[Len(rules[k].sel)].e # Tree0.kind[i]) => R.own[i] = Tree0.own[i]
Types == R.ok => \A i \in 1..6 : \A a \in DOMAIN R.own[i] : R.own[i][a] # Bad
Inherit == R.ok => \A i \in 2..6 : ("x" \notin DOMAIN R.own[i]) => Value(R, i, "x") = Value(R, R.par[i], "x")
NoInherit == R.ok => \A i \in 2..6 : ("color" \notin DOMAIN R.own[i]) => Value(R, i, "color") = Unset
Refusal == (\E k \in 1..Len(rules) : rules[k].block[1].v = "red" /\ rules[k].block[1].n = "x" /\ rules[k].sel = <<Sel("board", "", "", "")>>) => ~R.ok
=========================================================================================
