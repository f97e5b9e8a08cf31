------------------------------ MODULE MCSession ------------------------------
(* Exhaustive exploration of Session with a bounded environment: every          *)
(* interleaving of arrivals, calls from another thread and from handlers.       *)
EXTENDS Session, TLC
CONSTANTS Subs, MsgN, CallN
VARIABLES log,      \* sequence of <<s, m>> delivered
          calls,    \* number of calls made
          sent, throughout   \* subscribers registered before the first message and never unregistered
vars == <<svars, log, calls, sent, throughout>>

Handles(m) == {s \in Subs : s # 3 \/ m % 2 = 1}      \* subscriber 3 handles odd messages only
Init == SInit /\ log = <<>> /\ calls = 0 /\ sent = 0 /\ throughout = {}
Registering == UNION {{p.args[i] : i \in 1..Len(p.args)} : p \in {q \in pend : q.op = "reg" /\ ~q.lin}}
Quiet(a) == a /\ UNCHANGED <<log, calls, sent, throughout>>
Next ==
  \/ sent < MsgN /\ Arrive(sent + 1) /\ sent' = sent + 1 /\ UNCHANGED <<log, calls, throughout>>
  \/ \E s \in Subs : cur # <<>> /\ Deliver(s, cur[1]) /\ log' = Append(log, <<s, cur[1]>>) /\ UNCHANGED <<calls, sent, throughout>>
  \/ \E s \in Subs : Quiet(Return(s))
  \/ /\ calls < CallN /\ calls' = calls + 1
     /\ \/ \E s \in Subs : ~In(s, subs) /\ s \notin Registering /\ Call(calls + 1, "reg", <<s>>) /\ UNCHANGED <<log, sent, throughout>>
        \/ \E s \in Subs : In(s, subs) /\ Call(calls + 1, "unreg", <<s>>) /\ throughout' = throughout \ {s} /\ UNCHANGED <<log, sent>>
        \/ Call(calls + 1, "close", <<>>) /\ UNCHANGED <<log, sent, throughout>>
  \/ \E p \in pend : Quiet(Ret(p.id))
  \/ \E p \in pend : /\ Lin(p) /\ UNCHANGED <<log, calls, sent>>
                     /\ throughout' = IF p.op = "reg" /\ sent = 0 /\ ~(\E q \in pend : q.op = "unreg" /\ ~q.lin /\ q.args = p.args) THEN throughout \union {p.args[1]} ELSE throughout
  \/ Quiet(Begin(Handles))
  \/ Quiet(Skip)
  \/ Quiet(End)
Spec == Init /\ [][Next]_vars

Of(s) == SelectSeq(log, LAMBDA e : e[1] = s)
ExactlyOnceInOrder == \A s \in Subs : \A i, j \in 1..Len(Of(s)) : i < j => Of(s)[i][2] < Of(s)[j][2]
ArrivalOrder == \A i, j \in 1..Len(log) : i < j => log[i][2] <= log[j][2]
OnlyHandled == \A i \in 1..Len(log) : log[i][1] \in Handles(log[i][2])
NobodyMisses == (Idle /\ cur = <<>>) => \A s \in throughout : \A m \in 1..sent : (s \in Handles(m)) => In(<<s, m>>, log)
NoDoubles == \A i, j \in 1..Len(subs) : i # j => subs[i] # subs[j]
AfterClose == [][closed /\ cur = <<>> => log' = log]_vars
=============================================================================
