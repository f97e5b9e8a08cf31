----------------------------- MODULE JudgeProtocol -----------------------------
EXTENDS Protocol, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VTRACE)
VARIABLES l, st
F(name, ok) == IF ok THEN {} ELSE {name}
Yes(s) == s = "yes"
Preds(b, p) ==
  F("roll allowed exactly when it is the player's turn to roll", Yes(p.roll0) = MayRoll(b, 0) /\ Yes(p.roll1) = MayRoll(b, 1))
  \union F("moving allowed exactly with dice on one's turn", Yes(p.move0) = MayMove(b, 0) /\ Yes(p.move1) = MayMove(b, 1))
  \union F("doubling allowed exactly by the rules", Yes(p.double0) = MayDouble(b, 0) /\ Yes(p.double1) = MayDouble(b, 1))
  \union F("take or pass is the doubled player's decision", Yes(p.take0) = MayTake(b, 0) /\ Yes(p.take1) = MayTake(b, 1))
  \union F("beavers only in money games", Yes(p.redouble0) = MayRedouble(b, 0) /\ Yes(p.redouble1) = MayRedouble(b, 1))
  \union F("resigning allowed on one's turn", Yes(p.resign0) = MayResign(b, 0) /\ Yes(p.resign1) = MayResign(b, 1))
  \union F("accepting a resignation is the opponent's decision", Yes(p.accept0) = MayAccept(b, 0) /\ Yes(p.accept1) = MayAccept(b, 1))
  \union F("dice are on the board exactly when someone rolled", Yes(p.rolled) = (b.rolled # NODICE))
  \union F("a roll is doubles exactly when both dice show the same", p.doubles = "unasked" \/ Yes(p.doubles) = (b.rolled[1] = b.rolled[2]))
Enabled(b, r) == CASE r.op = "roll" -> MayRoll(b, r.w) [] r.op = "double" -> MayDouble(b, r.w) [] r.op \in {"take", "drop"} -> MayTake(b, r.w)
                   [] r.op = "offer" -> MayResign(b, r.w) /\ r.n \in 1..3 [] r.op \in {"accept", "reject"} -> MayAccept(b, r.w) [] r.op = "pickup" -> TRUE
Effect(b, r) == CASE r.op = "roll" -> Roll(b, r.dice) [] r.op = "double" -> Double(b, r.w) [] r.op = "take" -> Take(b, r.w) [] r.op = "drop" -> Drop(b, r.w)
                   [] r.op = "offer" -> Offer(b, r.w, r.n) [] r.op = "accept" -> Accept(b, r.w) [] r.op = "reject" -> Reject(b, r.w) [] r.op = "pickup" -> Pass(b)
Judge(b, r) ==
  IF r.op = "begin" THEN Preds(r.f, r.p)
  ELSE F("allowed or refused as specified", r.refused = ~Enabled(b, r))
       \union (IF Enabled(b, r) THEN F("the action has exactly its effect: " \o r.op, r.f = Effect(b, r))
               ELSE F("a refused action changes nothing: " \o r.op, r.f = b))
       \union Preds(r.f, r.p)
Init == l = 0 /\ st = [x |-> 0]
Next == /\ l < Len(Trace)
        /\ LET r == Trace[l + 1]  bad == Judge(st, r) IN
             /\ st' = r.f
             /\ (IF bad = {} THEN TRUE ELSE PrintT(<<"@BAD", l + 1, bad>>))
        /\ l' = l + 1
        /\ (IF l' < Len(Trace) THEN TRUE ELSE PrintT(<<"@END", l'>>))
Spec == Init /\ [][Next]_<<l, st>>
=============================================================================
