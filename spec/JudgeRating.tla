--------------------------------- MODULE JudgeRating ---------------------------------
EXTENDS Rating, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VTRACE)
VARIABLE l
F(name, ok) == IF ok THEN {} ELSE {name}
Judge(r) ==
  IF r.err # "" THEN {"a chance is not computed: " \o r.err}
  ELSE CASE r.op = "chance" ->
         F("between 0 and 1", r.inside)
         \union F("upset and winning chance are complementary", Near(r.up + r.win, S, 1))
         \union F("equals have one half", r.gap # 0 \/ (Near(r.up, S \div 2, 0) /\ Near(r.win, S \div 2, 0)))
         \union F("chances follow the rating formula", r.k < 0 \/ Near(r.up, Upset(r.k), 2))
         \union F("stakes sum to the match length", r.stake = "exact" /\ Near(r.gainw, r.len * r.up, r.len + 1) /\ Near(r.gainl, r.len * r.win, r.len + 1))
    [] r.op = "law" -> LET a == (r.u1 * r.u2) \div S  b == ((S - r.u1) * (S - r.u2)) \div S
                       IN F("rating gaps add up", Near(r.u12, (a * S) \div (a + b), 6))
                          \union F("four times the length counts as twice the gap", Near(r.long, r.twice, 1))
    [] r.op = "mono" -> F("an upset becomes rarer with the rating gap", r.gapdown)
                        \union F("an upset becomes rarer with the match length", r.lendown)
    [] r.op = "tourney" ->
         F("the chance of reaching the final never exceeds one", r.sumok)
         \union F("winner's chance", Near(r.w, WinnerChance(r.wc, r.rounds), 2 * r.rounds + 1))
         \union F("whoever wins all rounds but the last is in the final, and wins it with the chance of one match", Near(r.final, S, 1) /\ Near(r.step, r.wc, 1))
         \union F("runner-up's chance", Near(r.ru, RunnerUpChance(r.wc, r.rounds), 2 * r.rounds + 1))
         \union F("an average entrant is neither favoured nor handicapped", ~r.average \/ r.fair)
         \union F("prizes make every entrant's expectation that of the average", Near(r.expw, S, 2) /\ Near(r.expr, S, 2))
         \union F("fees make every entrant's expectation that of the average", Near(r.expf, S, 2))
Init == l = 0
Next == /\ l < Len(Trace)
        /\ LET bad == Judge(Trace[l + 1]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"@BAD", l + 1, bad>>)
        /\ l' = l + 1
        /\ (IF l' < Len(Trace) THEN TRUE ELSE PrintT(<<"@END", l'>>))
Spec == Init /\ [][Next]_l
======================================================================================
