-------------------------------- MODULE Cookie --------------------------------
(* Classification of the lines of a FIBS session (bglib.protocol.fibs).         *)
(* A line is known by the cookies one of whose patterns matches it, per phase:  *)
(* [login |-> set, motd |-> set, run |-> set, empty |-> BOOLEAN].               *)
EXTENDS Integers, Sequences, FiniteSets
Phases == {"login", "motd", "run"}
Default(ph) == CASE ph = "login" -> "FIBS_PreLogin" [] ph = "motd" -> "FIBS_MOTD" [] ph = "run" -> "FIBS_Unknown"
\* cookies the line may get in a phase
May(ph, line) ==
  IF ph = "run" /\ line.empty THEN {"FIBS_Empty"}
  ELSE LET m == line[ph] IN IF m = {} THEN {Default(ph)} ELSE m
\* the documented phase changes
After(ph, cookie) ==
  CASE ph = "login" /\ cookie = "CLIP_MOTD_BEGIN" -> "motd"
    [] ph = "motd" /\ cookie = "CLIP_MOTD_END" -> "run"
    [] ph = "run" /\ cookie = "FIBS_Goodbye" -> "login"
    [] OTHER -> ph
=============================================================================
