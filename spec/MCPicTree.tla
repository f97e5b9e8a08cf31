------------------------------------ MODULE MCPicTree ------------------------------------
(* Games of a small board: a tree is set to one board after another; what it shows is the   *)
(* board, each chequer once, one cube, at most the dice of the player to move, and the      *)
(* picture of the mirrored board is the mirrored picture.                                    *)
EXTENDS PicTree
CONSTANTS Pts, Total, MaxCube
VARIABLES board, tree
vars == <<board, tree>>
Side == {s \in [1..(Pts + 1) -> 0..Total] : Sum([i \in 1..(Pts + 1) |-> s[i]]) <= Total}
Positions == {<<a, b>> \in Side \X Side : \A i \in 1..Pts : a[i] = 0 \/ b[Pts + 1 - i] = 0}
Rolls == {<<0, 0>>, <<1, 2>>, <<3, 3>>}
Boards == [pos : Positions, cube : 0..MaxCube, owner : {"you", "him", "center"}, doubled : BOOLEAN, on : {You, Him}, inner : {You, Him}, rolled : Rolls,
           offer : {0, 2}, score : {<<0, 1>>}, length : {3}, crawford : {FALSE}]
First == CHOOSE p \in Positions : Sum(p[1]) = Total /\ Sum(p[2]) = Total
Start == [pos |-> First, cube |-> 0, owner |-> "center", doubled |-> FALSE, on |-> You, inner |-> You, rolled |-> <<0, 0>>, offer |-> 0, score |-> <<0, 1>>, length |-> 3, crawford |-> FALSE]
Init == board = Start /\ tree = Items(Start, Total)
Sets(b) == board' = b /\ tree' = IF Refused(b) THEN <<>> ELSE Items(b, Total)
\* moves in the game of picturing: change one aspect of the board
Place == \E p \in Positions : Sets([board EXCEPT !.pos = p])
Roll == \E r \in Rolls : Sets([board EXCEPT !.rolled = r])
Turn == \E p, q \in {You, Him} : Sets([board EXCEPT !.on = p, !.inner = q])
Turned == \E d \in BOOLEAN, c \in 0..MaxCube, o \in {"you", "him", "center"} : Sets([board EXCEPT !.doubled = d, !.cube = c, !.owner = o])
Offer == \E f \in {0, 2} : Sets([board EXCEPT !.offer = f])
Next == Place \/ Roll \/ Turn \/ Turned \/ Offer
Spec == Init /\ [][Next]_vars
(* ------------------------------------ properties -------------------------------------*)
Of(s, k) == SelectSeq(s, LAMBDA x : x.k = k)
Num(d) == CHOOSE n \in 0..64 : ToString(n) = d
Shown(p) == LET c == SelectSeq(Of(tree, "chequer"), LAMBDA x : x.a = p) IN Sum([i \in 1..Len(c) |-> Num(c[i].d)])
AllChequers == Refused(board) \/ (Shown(You) = Total /\ Shown(Him) = Total)
OneCube == Refused(board) \/ Len(Of(tree, "cube")) = (IF Pending(board) /\ Rolled(board) THEN 0 ELSE 1)
DiceShown == LET d == Of(tree, "die") IN (Refused(board) /\ d = <<>>) \/ (IF Rolled(board) THEN Len(d) = 2 /\ \A i \in 1..2 : d[i].w = At("field", board.on) ELSE d = <<>>)
ResignShown == Len(Of(tree, "resign")) <= 1 /\ (Len(Of(tree, "resign")) = 1 => Offered(board) /\ Of(tree, "die") = <<>> /\ Of(tree, "cube")[1].w = CubeAt(board))
Swap(b) == [b EXCEPT !.pos = <<@[2], @[1]>>, !.owner = IF @ = "center" THEN @ ELSE Other(@), !.on = Other(@), !.inner = Other(@), !.score = <<@[2], @[1]>>]
Mirror(x) == LET names == {"bar", "home", "field", "score"}
                 w2 == IF \E n \in names, p \in {You, Him} : x.w = At(n, p)
                       THEN LET n == CHOOSE n \in names : \E p \in {You, Him} : x.w = At(n, p)
                                p == CHOOSE p \in {You, Him} : x.w = At(n, p) IN At(n, Other(p))
                       ELSE IF \E i \in 1..Pts : x.w = At("point", ToString(i)) THEN LET i == CHOOSE i \in 1..Pts : x.w = At("point", ToString(i)) IN At("point", ToString(Pts + 1 - i))
                       ELSE x.w
             IN [x EXCEPT !.w = w2, !.a = IF @ \in {You, Him} THEN Other(@) ELSE @]
Symmetric == Refused(board) = Refused(Swap(board))
             /\ (Refused(board) \/ LET t == SelectSeq(tree, LAMBDA x : x.w # "action") IN
                 SameBag(SelectSeq(Items(Swap(board), Total), LAMBDA x : x.w # "action"), [i \in 1..Len(t) |-> Mirror(t[i])]))
\* the picture tells the boards apart (but for what is not shown: a cube whose owner is hidden by a pending double, an idle offer)
Positioned == Refused(board) \/ \A w \in 1..2, i \in 1..Pts :
                Count(tree, It(At("point", ToString(IF w = 1 THEN i ELSE Pts + 1 - i)), "chequer", Players[w], ToString(board.pos[w][i]))) = (IF board.pos[w][i] = 0 THEN 0 ELSE 1)
==========================================================================================
