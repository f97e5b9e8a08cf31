----------------------------------- MODULE Rating -----------------------------------
(* Winning chances in fixed point (S = one).  Odds against an upset are               *)
(* 10^(gap*sqrt(length)/2000): known exactly (to rounding) where the exponent is a    *)
(* multiple of 1/8, and by the law odds(g1+g2) = odds(g1)*odds(g2) elsewhere.         *)
EXTENDS Integers, Sequences
S == 10000
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == Abs(a - b) <= tol
\* 10^(k/8) times 10000, k = 0..8
Tenths == <<10000, 13335, 17783, 23714, 31623, 42170, 56234, 74989, 100000>>
\* chance of an upset when the exponent is k/8
Upset(k) == LET o == IF k <= 8 THEN Tenths[k + 1] ELSE Tenths[k - 7] * 10   \* k = 0..16
            IN (S * S + (o + S) \div 2) \div (o + S)
RECURSIVE Power(_, _)
Power(p, n) == IF n = 0 THEN S ELSE (Power(p, n - 1) * p + S \div 2) \div S
WinnerChance(w, rounds) == Power(w, rounds)
RunnerUpChance(w, rounds) == (Power(w, rounds - 1) * (S - w) + S \div 2) \div S
======================================================================================
