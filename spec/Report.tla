-------------------------------------- MODULE Report -------------------------------------
(* The tables an Analysis macro writes for the rows its database returns.                  *)
(* Equities are thousandths, chances are tenths; None stands for a missing difference.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
None == -999999
Abs(k) == IF k < 0 THEN -k ELSE k
Pad3(n) == (IF n < 10 THEN "00" ELSE IF n < 100 THEN "0" ELSE "") \o ToString(n)
Signed(k) == (IF k < 0 THEN "-" ELSE "+") \o ToString(Abs(k) \div 1000) \o "." \o Pad3(Abs(k) % 1000)
Tenths(k) == ToString(k \div 10) \o "." \o ToString(k % 10)
Actions == <<"No double", "Double, take", "Double, pass", "Too good to double">>
\* a cell is a header or not, an equity cell or not, spans rows and columns, and shows a text
Cell(h, c, rs, cs, t) == [h |-> h, c |-> c, rs |-> rs, cs |-> cs, t |-> t]
H(rs, cs, t) == Cell(TRUE, "", rs, cs, t)
D(rs, cs, t) == Cell(FALSE, "", rs, cs, t)
Eq(t) == Cell(FALSE, "Equity", 1, 6, t)
Row(c, cells) == [c |-> c, cells |-> cells]
Table(c, rows) == [c |-> c, rows |-> rows]
RowClass(x) == IF x.actual THEN "actualrow" ELSE IF x.nth % 2 = 0 THEN "evenrow" ELSE "oddrow"
Shown(d) == d # None /\ d # 0
ChanceHead == Row("headerrow", [i \in 1..6 |-> H(1, 1, <<"Win", "WinG", "WinBg", "Lose", "LoseG", "LoseBg">>[i])])
Chances(c, w) == Row(c, [i \in 1..6 |-> D(1, 1, Tenths(w[i]))])
Cubeless(x) ==
  Table("cubeless",
    << Row("headerrow", <<H(2, 1, "Ply"), H(1, 6, "Cubeless Eq.")>>), ChanceHead,
       Row("oddrow", <<D(2, 1, ToString(x.ply)), Eq(Signed(x.cubeless) \o " (Money " \o Signed(x.money) \o ")")>>),
       Chances("oddrow", x.w) >>)
CubeRow(x) ==
  Row(RowClass(x), <<H(1, 1, ToString(x.nth)), D(1, 1, Actions[x.action + 1]), D(1, 1, Signed(x.eq)),
                     D(1, 1, IF Shown(x.diff) THEN Signed(x.diff) ELSE "")>>)
CubeTable(xs) == Table("cubeaction", << Row("headerrow", <<H(1, 1, "#"), H(1, 1, "action"), H(1, 2, "Cubeful Eq.")>>) >> \o [i \in 1..Len(xs) |-> CubeRow(xs[i])])
MoveRows(x) ==
  << Row(RowClass(x), <<H(2, 1, ToString(x.nth)), D(2, 1, x.move), D(2, 1, ToString(x.ply)),
                        Eq(Signed(x.eq) \o (IF Shown(x.diff) THEN " (" \o Signed(x.diff) \o ")" ELSE ""))>>),
     Chances(RowClass(x), x.w) >>
RECURSIVE AllMoves(_)
AllMoves(xs) == IF xs = <<>> THEN <<>> ELSE MoveRows(Head(xs)) \o AllMoves(Tail(xs))
MoveTable(xs) == Table("move", << Row("headerrow", <<H(2, 1, "#"), H(2, 1, "move"), H(2, 1, "Ply"), H(1, 6, "Eq.(diff)")>>), ChanceHead >> \o AllMoves(xs))
\* the tables of one analysis, in order
Tables(a) == IF a.cube THEN <<Cubeless(a.first), CubeTable(a.rows)>> ELSE <<MoveTable(a.rows)>>
RECURSIVE AllTables(_)
AllTables(as) == IF as = <<>> THEN <<>> ELSE Tables(Head(as)) \o AllTables(Tail(as))
\* every table is a rectangle: what a row's cells take up, with those reaching down from the row above, is the same for all
RECURSIVE Sum(_, _)
Sum(cells, below) == IF cells = <<>> THEN 0 ELSE (IF below /\ Head(cells).rs = 1 THEN 0 ELSE Head(cells).cs) + Sum(Tail(cells), below)
Width(t, i) == Sum(t.rows[i].cells, FALSE) + (IF i = 1 THEN 0 ELSE Sum(t.rows[i - 1].cells, TRUE))
Rectangular(t) == (\A i \in 1..Len(t.rows) : Width(t, i) = Width(t, 1)) /\ Sum(t.rows[Len(t.rows)].cells, TRUE) = 0
==========================================================================================
