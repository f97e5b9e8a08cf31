-------------------------------------- MODULE Style -------------------------------------
(* Elements of a board picture, their typed attributes, and style sheets (bglib.image.css).*)
(* A tree is [kind, par, data, own]: sequences over the elements in document order (an      *)
(* element after its parent); data[i] the texts in element i; own[i] its own attributes,    *)
(* name -> "type:value".                                                                   *)
EXTENDS Sequences, Naturals, FiniteSets, TLC
(* ---------------------------------- the vocabulary -----------------------------------*)
Common == [x |-> "xint", y |-> "xint", width |-> "xint", height |-> "xint", image |-> "uri", flip |-> "flip", background |-> "str", color |-> "str",
           font |-> "xuri", mag |-> "xfloat"]
Player == [player |-> "player"]
Offsets == [x_offset |-> "int0", y_offset |-> "int0"]
AttrsOf(k) ==
  CASE k \in {"action", "score", "bar"} -> Player @@ Common
    [] k = "field" -> Player @@ [text |-> "str"] @@ Common
    [] k = "die" -> [backgammon |-> "str", diestyle |-> "diestyle", eyesize |-> "int", id |-> "str"] @@ Common
    [] k = "cube" -> [initialCube |-> "str"] @@ Common
    [] k = "resign" -> Player @@ Offsets @@ Common
    [] k = "home" -> Player @@ [fill |-> "fill"] @@ Common
    [] k = "chequer" -> Player @@ Offsets @@ [x_offset2 |-> "int0", y_offset2 |-> "int0", hide_count |-> "bool", max_count |-> "int"] @@ Common
    [] k = "point" -> [fill |-> "fill", parity |-> "parity"] @@ Common
    [] OTHER -> Common
Text == "#PCDATA"
ContentOf(k) ==
  CASE k = "board" -> {"match", "position"}
    [] k = "match" -> {"action", "length", "crawford", "score"}
    [] k = "position" -> {"cubeholder", "field", "home", "bar", "point", "top_frame", "bottom_frame"}
    [] k = "cubeholder" -> {Text, "cube"}
    [] k = "field" -> {Text, "die", "cube", "resign"}
    [] k = "home" -> {Text, "cube", "chequer"}
    [] k \in {"bar", "point"} -> {Text, "chequer"}
    [] OTHER -> {Text}
Kinds == {"board", "match", "action", "length", "crawford", "score", "position", "top_frame", "bottom_frame", "cubeholder", "field", "die", "cube", "resign", "home", "chequer", "bar", "point"}
Inherited(ty) == ty \in {"xint", "xfloat", "flip", "fill", "xuri"}
Default(ty) == CASE ty = "flip" -> "bool:False" [] ty = "fill" -> "bool:True" [] ty = "bool" -> "bool:False" [] ty = "int0" -> "int:0" [] ty = "diestyle" -> "str:dot" [] OTHER -> ""
Unset == ""
(* --------------------------------- values in a sheet ---------------------------------*)
Bad == "!"
ToInt(v) == CASE v = "0" -> "int:0" [] v = "7" -> "int:7" [] v = "-3" -> "int:-3" [] v = "12" -> "int:12" [] v = "007" -> "int:7" [] v = "010" -> "int:10" [] v = "08" -> "int:8" [] v = "42" -> "int:42" [] OTHER -> Bad
ToFloat(v) == CASE v = "0" -> "float:0.0" [] v = "7" -> "float:7.0" [] v = "-3" -> "float:-3.0" [] v = "12" -> "float:12.0" [] v = "007" -> "float:7.0" [] v = "010" -> "float:10.0" [] v = "08" -> "float:8.0" [] v = "42" -> "float:42.0"
                [] v = "1.5" -> "float:1.5" [] v = "0.25" -> "float:0.25" [] OTHER -> Bad
ToBool(v) == CASE v \in {"True", "true", "TRUE"} -> "bool:True" [] v \in {"False", "false"} -> "bool:False" [] OTHER -> Bad
ToUri(dir, v) == CASE v = "uri(\"a.jpg\")" -> "str:" \o dir \o "/a.jpg" [] v = "uri(\"b/c.ttf\")" -> "str:" \o dir \o "/b/c.ttf" [] OTHER -> Bad
Among(v, s) == IF v \in s THEN "str:" \o v ELSE Bad
Convert(ty, dir, v) ==
  CASE ty \in {"int", "xint", "int0"} -> ToInt(v)
    [] ty = "xfloat" -> ToFloat(v)
    [] ty \in {"bool", "flip", "fill"} -> ToBool(v)
    [] ty \in {"uri", "xuri"} -> ToUri(dir, v)
    [] ty = "diestyle" -> Among(v, {"dot", "numeric"})
    [] ty = "parity" -> Among(v, {"even", "odd"})
    [] ty = "player" -> Among(v, {"you", "him"})
    [] OTHER -> "str:" \o v
\* a value set directly, already typed: [ty, v]
Settable(ty, t, v) ==
  CASE ty \in {"int", "xint", "int0"} -> t = "int"
    [] ty = "xfloat" -> t = "float"
    [] ty \in {"bool", "flip", "fill"} -> t = "bool"
    [] ty = "diestyle" -> t = "str" /\ v \in {"dot", "numeric"}
    [] ty = "parity" -> t = "str" /\ v \in {"even", "odd"}
    [] ty = "player" -> t = "str" /\ v \in {"you", "him"}
    [] OTHER -> t = "str"
(* -------------------------------- the value of an attribute --------------------------*)
RECURSIVE Value(_, _, _)
Value(t, i, a) ==
  LET as == AttrsOf(t.kind[i]) IN
  IF a \notin DOMAIN as THEN Unset
  ELSE IF a \in DOMAIN t.own[i] THEN t.own[i][a]
  ELSE IF Inherited(as[a]) /\ t.par[i] # 0 /\ a \in DOMAIN AttrsOf(t.kind[t.par[i]]) THEN Value(t, t.par[i], a)
  ELSE Default(as[a])
Put(f, a, v) == [b \in DOMAIN f \union {a} |-> IF b = a THEN v ELSE f[b]]
(* -------------------------------------- rules ----------------------------------------*)
\* a selector is [e, n, v, d]: element, attribute condition (n = "" for none), text ("" for none)
SelMatch(t, i, s) ==
  /\ t.kind[i] = s.e
  /\ s.n = "" \/ (/\ s.n \in DOMAIN t.own[i]
                  /\ LET c == Convert(AttrsOf(s.e)[s.n], "", s.v) IN c # Bad /\ c = t.own[i][s.n])
  /\ s.d = "" \/ (\E j \in 1..Len(t.data[i]) : t.data[i][j] = s.d)
\* the selectors match, the last the element itself, the others ancestors in this order
RECURSIVE Above(_, _, _, _)
Above(t, i, ss, k) ==
  IF k = 0 THEN TRUE
  ELSE IF i = 0 THEN FALSE
  ELSE (SelMatch(t, i, ss[k]) /\ Above(t, t.par[i], ss, k - 1)) \/ Above(t, t.par[i], ss, k)
RuleMatch(t, i, ss) == SelMatch(t, i, ss[Len(ss)]) /\ Above(t, t.par[i], ss, Len(ss) - 1)
\* a block is a sequence of [n, v]; of two values for one attribute the later holds
BlockAttrs(b) == {b[j].n : j \in 1..Len(b)}
BlockValue(b, a) == b[CHOOSE j \in 1..Len(b) : b[j].n = a /\ \A k \in (j + 1)..Len(b) : b[k].n # a].v
BlockBad(t, i, dir, b) == \E a \in BlockAttrs(b) : a \notin DOMAIN AttrsOf(t.kind[i]) \/ Convert(AttrsOf(t.kind[i])[a], dir, BlockValue(b, a)) = Bad
ApplyBlock(t, i, dir, b) ==
  [t EXCEPT !.own[i] = [a \in DOMAIN @ \union BlockAttrs(b) |-> IF a \in BlockAttrs(b) THEN Convert(AttrsOf(t.kind[i])[a], dir, BlockValue(b, a)) ELSE @[a]]]
\* element by element in document order, rule by rule; t.ok becomes FALSE when a value is refused
RECURSIVE Rules(_, _, _, _, _)
Rules(t, i, dir, rs, k) ==
  IF ~t.ok \/ k > Len(rs) THEN t
  ELSE IF ~RuleMatch(t, i, rs[k].sel) THEN Rules(t, i, dir, rs, k + 1)
  ELSE IF BlockBad(t, i, dir, rs[k].block) THEN [t EXCEPT !.ok = FALSE]
  ELSE Rules(ApplyBlock(t, i, dir, rs[k].block), i, dir, rs, k + 1)
RECURSIVE Elements(_, _, _, _)
Elements(t, i, dir, rs) == IF i > Len(t.kind) THEN t ELSE Elements(Rules(t, i, dir, rs, 1), i + 1, dir, rs)
ApplySheet(t, dir, rs) == Elements(t, 1, dir, rs)
=========================================================================================
