------------------------------- MODULE Session -------------------------------
(* Publish/subscribe core of bglib.protocol.session.Session.                    *)
(* One listener takes messages in arrival order and hands each to the           *)
(* subscribers registered when its dispatch began, in registration order.       *)
(* Calls (register, unregister, close) take effect at one moment between their  *)
(* start and their return, from any thread, also from inside a handler.         *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES subs,     \* registered subscribers, in registration order
          inbox,    \* messages arrived and not yet taken by the listener
          cur,      \* message being dispatched, a sequence of length 0 or 1
          todo,     \* subscribers still to be handed cur
          active,   \* subscriber whose handler is running, <<>> or <<s>>
          pend,     \* started calls: set of [id, op, args, lin]
          closed
svars == <<subs, inbox, cur, todo, active, pend, closed>>

SInit == subs = <<>> /\ inbox = <<>> /\ cur = <<>> /\ todo = <<>> /\ active = <<>> /\ pend = {} /\ closed = FALSE

Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
RECURSIVE WithoutAll(_, _)
WithoutAll(s, xs) == IF xs = <<>> THEN s ELSE WithoutAll(Without(s, Head(xs)), Tail(xs))
In(x, s) == \E i \in 1..Len(s) : s[i] = x

\* ------------------------------------------------------------- observable steps
Arrive(m) == inbox' = Append(inbox, m) /\ UNCHANGED <<subs, cur, todo, active, pend, closed>>
Deliver(s, m) == /\ cur = <<m>> /\ active = <<>> /\ todo # <<>> /\ Head(todo) = s
                 /\ todo' = Tail(todo) /\ active' = <<s>>
                 /\ UNCHANGED <<subs, inbox, cur, pend, closed>>
Return(s) == active = <<s>> /\ active' = <<>> /\ UNCHANGED <<subs, inbox, cur, todo, pend, closed>>
Call(id, op, args) == /\ pend' = pend \union {[id |-> id, op |-> op, args |-> args, lin |-> FALSE]}
                      /\ UNCHANGED <<subs, inbox, cur, todo, active, closed>>
Ret(id) == /\ \E p \in pend : p.id = id /\ p.lin /\ pend' = pend \ {p}
           /\ UNCHANGED <<subs, inbox, cur, todo, active, closed>>
\* ------------------------------------------------------------- internal steps
\* closing takes effect between two messages, or while a handler runs (the rest of that message may still go out)
Lin(p) == /\ p \in pend /\ ~p.lin
          /\ (p.op # "close" \/ cur = <<>> \/ active # <<>>)
          /\ pend' = (pend \ {p}) \union {[p EXCEPT !.lin = TRUE]}
          /\ subs' = CASE p.op = "reg" -> subs \o p.args
                       [] p.op = "unreg" -> WithoutAll(subs, p.args)
                       [] OTHER -> subs
          /\ closed' = (closed \/ p.op = "close")
          /\ UNCHANGED <<inbox, cur, todo, active>>
\* handles(m): set of subscribers having a method for the cookie of m
Begin(handles(_)) ==
  /\ cur = <<>> /\ inbox # <<>> /\ ~closed
  /\ cur' = <<Head(inbox)>> /\ inbox' = Tail(inbox)
  /\ todo' = SelectSeq(subs, LAMBDA s : s \in handles(Head(inbox)))
  /\ UNCHANGED <<subs, active, pend, closed>>
\* a subscriber unregistered before its turn may be left out
Skip == /\ todo # <<>> /\ active = <<>> /\ ~In(Head(todo), subs)
        /\ todo' = Tail(todo) /\ UNCHANGED <<subs, inbox, cur, active, pend, closed>>
End == /\ cur # <<>> /\ todo = <<>> /\ active = <<>>
       /\ cur' = <<>> /\ UNCHANGED <<subs, inbox, todo, active, pend, closed>>
Idle == inbox = <<>> /\ todo = <<>> /\ active = <<>>
=============================================================================
