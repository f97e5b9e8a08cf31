------------------------------------- MODULE MCReport ------------------------------------
(* Every short report: its tables are rectangles, each row of the analysis stands in its   *)
(* place and can be read back from what is shown, and the rows that are the actual         *)
(* decision are exactly those marked.                                                      *)
EXTENDS Report
CONSTANTS MAXROWS, FULL
VARIABLES a
Chance == {<<519, 72, 2, 481, 101, 2>>, <<1000, 0, 0, 0, 0, 0>>}
First == [ply |-> 2, cubeless |-> 11, money |-> -8, w |-> <<519, 72, 2, 481, 101, 2>>]
Init == a \in {[cube |-> c, first |-> First, rows |-> <<>>] : c \in BOOLEAN}
Step(x) == a' = [a EXCEPT !.rows = Append(@, x)]
Next == /\ Len(a.rows) < MAXROWS
        /\ \E e \in (IF FULL THEN {-1001, -1, 0, 96, 1236} ELSE {-96, 1236}), d \in {None, 0, -332, 5}, act \in BOOLEAN, k \in (IF FULL THEN 0..3 ELSE {0, 2}), w \in Chance :
             Step([nth |-> Len(a.rows) + 1, action |-> k, move |-> <<"24/18", "13/7(2) bar/20*", "", "6/off">>[k + 1], ply |-> k,
                   eq |-> e, diff |-> d, w |-> w, actual |-> act])
Spec == Init /\ [][Next]_a
T == Tables(a)
Body == LET t == T[Len(T)] IN t.rows
Rectangles == \A i \in 1..Len(T) : Rectangular(T[i])
\* the row of the i-th entry
At(i) == IF a.cube THEN Body[i + 1] ELSE Body[2 * i + 1]
Placed == /\ Len(Body) = (IF a.cube THEN 1 + Len(a.rows) ELSE 2 + 2 * Len(a.rows))
          /\ \A i \in 1..Len(a.rows) : At(i).cells[1].t = ToString(i) /\ (At(i).c = "actualrow") = a.rows[i].actual
\* two entries are shown alike only if they are alike as far as the table goes
Told(x) == IF a.cube THEN <<x.action, x.eq, IF Shown(x.diff) THEN x.diff ELSE 0, x.actual>>
           ELSE <<x.move, x.ply, x.eq, IF Shown(x.diff) THEN x.diff ELSE 0, x.w, x.actual>>
Look(i) == IF a.cube THEN <<Tail(At(i).cells), At(i).c = "actualrow">> ELSE <<Tail(At(i).cells), At(i).c = "actualrow", Body[2 * i + 2].cells>>
Faithful == \A i, j \in 1..Len(a.rows) : (Look(i) = Look(j)) <=> (Told(a.rows[i]) = Told(a.rows[j]))
ASSUME Cardinality({Signed(k) : k \in -2100..2100}) = 4201
ASSUME Cardinality({Tenths(k) : k \in 0..1000}) = 1001
==========================================================================================
