---------------------------- MODULE TraceSession -----------------------------
(* Trace validation: each recorded run (a line of VTRACE) must be a behaviour   *)
(* of Session; the moments of linearisation, dispatch begin and end are left to *)
(* TLC.  Accepted runs print their number.                                      *)
EXTENDS Session, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VTRACE)
VARIABLES tr, l
tvars == <<svars, tr, l>>
Evs == Traces[tr].trace
SubSet == {Traces[tr].subs[i].name : i \in 1..Len(Traces[tr].subs)}
Handles(m) == {Traces[tr].subs[i].name : i \in {k \in 1..Len(Traces[tr].subs) : In(m.cookie, Traces[tr].subs[k].cookies)}}
Init == tr \in 1..Len(Traces) /\ l = 1 /\ SInit
Is(e) == l <= Len(Evs) /\ Evs[l].ev = e /\ l' = l + 1 /\ UNCHANGED tr
E == Evs[l]
Silent == UNCHANGED <<tr, l>>
Done == l = Len(Evs) + 1 /\ l' = l + 1 /\ PrintT("@@" \o ToJson([accepted |-> tr])) /\ UNCHANGED <<svars, tr>>
Next ==
  \/ Is("send") /\ Arrive([cookie |-> E.cookie, text |-> E.text])
  \/ Is("deliver") /\ Deliver(E.s, [cookie |-> E.cookie, text |-> E.text])
  \/ Is("return") /\ Return(E.s)
  \/ Is("call") /\ Call(E.id, E.op, E.args)
  \/ Is("ret") /\ Ret(E.id)
  \/ Is("idle") /\ Idle /\ UNCHANGED svars
  \/ Is("terminated") /\ E.set /\ UNCHANGED svars
  \/ Is("active") /\ E.value = ~closed /\ UNCHANGED svars
  \/ \E p \in pend : Lin(p) /\ Silent
  \/ Begin(Handles) /\ Silent
  \/ Skip /\ Silent
  \/ End /\ Silent
  \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
