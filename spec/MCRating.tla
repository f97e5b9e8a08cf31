---------------------------------- MODULE MCRating ----------------------------------
(* Sanity of the fixed-point specification: bounds, order, the multiplicative law,    *)
(* and that winner and runner-up chances over a field of equals are fair.             *)
EXTENDS Rating, TLC
VARIABLES k, m, n
Init == k \in 0..16 /\ m \in 0..16 /\ n \in 1..8
Next == UNCHANGED <<k, m, n>>
Spec == Init /\ [][Next]_<<k, m, n>>
Bounds == Upset(k) \in 1..S \div 2 /\ (k = 0) = (Upset(k) = S \div 2)
Falls == k < m => Upset(k) > Upset(m)
\* odds multiply: u = u1*u2/(u1*u2 + (1-u1)(1-u2))
Law == k + m <= 16 => LET a == (Upset(k) * Upset(m)) \div S  b == ((S - Upset(k)) * (S - Upset(m))) \div S
                      IN Near(Upset(k + m), (a * S) \div (a + b), 4)
Chances == WinnerChance(S - Upset(k), n) + RunnerUpChance(S - Upset(k), n) <= S + n
           /\ Near(WinnerChance(S \div 2, n), S \div (2 ^ n), 1) /\ WinnerChance(S \div 2, n) = RunnerUpChance(S \div 2, n)
\* being in the final is having won all rounds but one
Final == Near(WinnerChance(S - Upset(k), n) + RunnerUpChance(S - Upset(k), n), WinnerChance(S - Upset(k), n - 1), 1)
======================================================================================
