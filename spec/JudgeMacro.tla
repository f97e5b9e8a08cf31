------------------------------------ MODULE JudgeMacro -----------------------------------
EXTENDS Macro, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VTRACE)
VARIABLES l, reg
F(name, ok) == IF ok THEN {} ELSE {name}
Judge(r) ==
  IF r.err # "" THEN {"fails: " \o r.err}
  ELSE IF r.op # "page" THEN {}
  ELSE F("only well-formed markup", r.bad = <<>>)
       \union F("the handler registered under the name is called, with the arguments written", [i \in 1..Len(r.calls) |-> <<r.calls[i].id, r.calls[i].args>>] = CallsOf(reg, Empty, r.lines))
       \union F("each call, error and table of contents stands where it was written", r.events = PageHtml(Page(ResolveAll(reg, r.lines))))
       \union F("asking again gives the same page", r.again)
Init == l = 0 /\ reg = Reg0
Next == /\ l < Len(Trace)
        /\ LET r == Trace[l + 1]
               bad == Judge(r)
           IN /\ (IF bad = {} THEN TRUE ELSE PrintT(<<"@BAD", l + 1, bad>>))
              /\ reg' = CASE r.op = "begin" -> Reg0
                         [] r.op = "reg" -> Register(reg, r.h)
                         [] r.op = "unreg" -> Unregister(reg, r.name, r.id)
                         [] OTHER -> reg
        /\ l' = l + 1
        /\ (IF l' < Len(Trace) THEN TRUE ELSE PrintT(<<"@END", l'>>))
Spec == Init /\ [][Next]_<<l, reg>>
==========================================================================================
