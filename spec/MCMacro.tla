------------------------------------- MODULE MCMacro -------------------------------------
(* Every short history of registrations, unregistrations and calls.                       *)
EXTENDS Macro
CONSTANTS MaxSteps
VARIABLES reg, hist, d, calls
vars == <<reg, hist, d, calls>>
Hs == {[id |-> n \o k \o j, name |-> n, kind |-> k] : n \in {"A", "BR"}, k \in {"span", "bad"}, j \in {"1", "2"}}
Mac(n, t) == [y |-> "mac", k |-> n, n |-> 0, t |-> t, src |-> ""]
Init == reg = Reg0 /\ hist = <<>> /\ d = Line(Empty, [y |-> "line", raw |-> "", s |-> "x", def |-> FALSE, proc |-> FALSE, toks |-> <<T("w")>>]) /\ calls = <<>>
Note(x) == Len(hist) < MaxSteps /\ hist' = Append(hist, x)
Reg == \E h \in Hs : Note(<<"reg", h.name, h.id>>) /\ reg' = Register(reg, h) /\ UNCHANGED <<d, calls>>
Unreg == \E n \in {"A", "BR"}, h \in Hs : Note(<<"unreg", n, h.id>>) /\ reg' = Unregister(reg, n, h.id) /\ UNCHANGED <<d, calls>>
Call == \E n \in {"A", "BR", "X"} : Note(<<"call", n, "">>) /\ d' = Toks(d, <<Effect(reg, Mac(n, "z"))>>) /\ calls' = calls \o Called(reg, Mac(n, "z")) /\ UNCHANGED reg
Next == Reg \/ Unreg \/ Call
Spec == Init /\ [][Next]_vars
\* the page is whole and the writing place unmoved after every call
Whole == WellFormed(d) /\ Balanced(PageHtml(d), <<>>) /\ d.kind[d.cur] = "Div"
\* a name answers to the handler registered last under it and not unregistered since
LastReg(n) ==
  LET is == {i \in 1..Len(hist) : hist[i][1] = "reg" /\ hist[i][2] = n}
      i == CHOOSE i \in is : \A j \in is : j <= i
  IN IF is = {} THEN (IF n \in Builtin THEN n ELSE "")
     ELSE IF \E j \in (i + 1)..Len(hist) : hist[j][1] = "unreg" /\ hist[j][2] = n /\ hist[j][3] = hist[i][3] THEN "" ELSE hist[i][3]
Answers == \A n \in {"A", "BR", "X"} : (IF Has(reg, n) THEN reg[n].id ELSE "") = LastReg(n)
CallsKnown == \A i \in 1..Len(calls) : \E j \in 1..Len(hist) : hist[j][1] = "reg" /\ hist[j][3] = calls[i][1] /\ calls[i][2] = "z"
=========================================================================================
