------------------------------- MODULE MCCookie -------------------------------
(* The classifier as built (recently matched patterns are tried first, the rest *)
(* in an order of no consequence) refines Cookie for every history of abstract  *)
(* lines: whatever the most-recently-used order is, a line gets a cookie May    *)
(* allows, the phase moves only as documented, and nothing else is remembered.  *)
EXTENDS Cookie, TLC
RunC == {"A", "B", "C", "FIBS_Goodbye"}
Lines == [login : {{"CLIP_MOTD_BEGIN"}, {"FIBS_PreLogin"}, {}},
          motd : {{"CLIP_MOTD_END"}, {"FIBS_MOTD"}, {}},
          run : {s \in SUBSET {"A", "B", "C"} : TRUE} \union {{"FIBS_Goodbye"}},
          empty : {FALSE}] \union {[login |-> {}, motd |-> {}, run |-> {}, empty |-> TRUE]}
VARIABLES phase, mru, order, last, prev
vars == <<phase, mru, order, last, prev>>
Orders == {<<"A", "B", "C", "FIBS_Goodbye">>, <<"FIBS_Goodbye", "C", "B", "A">>, <<"B", "A", "FIBS_Goodbye", "C">>}
\* first cookie of s that is in m
First(s, m) == LET i == CHOOSE k \in 1..Len(s) : s[k] \in m /\ \A j \in 1..k-1 : s[j] \notin m IN s[i]
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
Init == phase = "login" /\ mru = <<>> /\ order \in Orders /\ last = "" /\ prev = [ph |-> "login", line |-> [login |-> {}, motd |-> {}, run |-> {}, empty |-> TRUE]]
Step(line) ==
  /\ prev' = [ph |-> phase, line |-> line]
  /\ IF phase = "run"
     THEN IF line.empty THEN last' = "FIBS_Empty" /\ mru' = mru
          ELSE IF line.run = {} THEN last' = "FIBS_Unknown" /\ mru' = mru
          ELSE LET c == First(mru \o order, line.run) IN last' = c /\ mru' = <<c>> \o Without(mru, c)
     ELSE last' = (IF line[phase] = {} THEN Default(phase) ELSE CHOOSE c \in line[phase] : TRUE) /\ mru' = <<>>
  /\ phase' = After(phase, last')
  /\ UNCHANGED order
Next == \E line \in Lines : Step(line)
Spec == Init /\ [][Next]_vars
Sound == last = "" \/ last \in May(prev.ph, prev.line)
Unique == Cardinality(prev.line[prev.ph]) = 1 /\ ~prev.line.empty /\ last # "" => {last} = prev.line[prev.ph]
Moves == phase \in {prev.ph, "motd", "run", "login"} /\ (phase # prev.ph => last \in {"CLIP_MOTD_BEGIN", "CLIP_MOTD_END", "FIBS_Goodbye"})
Cycle == [][phase' # phase => (phase = "login" /\ phase' = "motd") \/ (phase = "motd" /\ phase' = "run")
                               \/ (phase = "run" /\ phase' = "login")]_vars
=============================================================================
