---------------------------------- MODULE GnubgId ----------------------------------
(* GNU Backgammon's position and match ids, as documented in its manual.           *)
(* Text is a sequence of base-64 digit values (0..63).                             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, TOTAL                     \* points a side, bits of a position key
YOU == 0
HIM == 1
\* ------------------------------------------------------------- bits and base 64
RECURSIVE Ones(_)
Ones(n) == IF n = 0 THEN <<>> ELSE <<1>> \o Ones(n - 1)
RECURSIVE Unary(_)
Unary(side) == IF side = <<>> THEN <<>> ELSE Ones(Head(side)) \o <<0>> \o Unary(Tail(side))
Pad(bits, n) == [i \in 1..n |-> IF i <= Len(bits) THEN bits[i] ELSE 0]
\* the bits fill bytes low bit first; base 64 reads bytes high bit first, six bits a digit
Digits(bits) ==                        \* Len(bits) a multiple of 8
  LET nb == Len(bits) \div 8
      Bit(s) == IF s >= 8 * nb THEN 0 ELSE bits[8 * (s \div 8) + 8 - (s % 8)]
      nd == (8 * nb + 5) \div 6
  IN [d \in 1..nd |-> Bit(6*d-6) * 32 + Bit(6*d-5) * 16 + Bit(6*d-4) * 8 + Bit(6*d-3) * 4 + Bit(6*d-2) * 2 + Bit(6*d-1)]
Bits(digits, nb) ==                    \* the first nb bytes of a text, as bits
  LET S(s) == (digits[s \div 6 + 1] \div (2 ^ (5 - (s % 6)))) % 2
  IN [i \in 1..8*nb |-> S(8 * ((i - 1) \div 8) + 7 - ((i - 1) % 8))]
\* ------------------------------------------------------------- positions
PosBits(x, y) == Pad(Unary(x) \o Unary(y), TOTAL)
PosId(x, y) == Digits(PosBits(x, y))
RECURSIVE Runs(_, _, _)
Runs(bits, n, acc) == IF bits = <<>> \/ Len(acc) = 2 * (N + 1) THEN acc
                      ELSE IF Head(bits) = 1 THEN Runs(Tail(bits), n + 1, acc) ELSE Runs(Tail(bits), 0, Append(acc, n))
PosOf(bits) == LET r == Runs(bits, 0, <<>>) IN <<SubSeq(r, 1, N + 1), SubSeq(r, N + 2, 2 * N + 2)>>
\* a position id lists first the side waiting, then the side on action
Sides(position, on) == IF on = YOU THEN <<position[2], position[1]>> ELSE <<position[1], position[2]>>
BoardPid(b) == LET s == Sides(b.position, b.on_action) IN PosId(s[1], s[2])
\* ------------------------------------------------------------- match ids: 66 bits
Low(v, n) == [i \in 1..n |-> (v \div (2 ^ (i - 1))) % 2]
MatchBits(b) ==
  Low(b.cube_in_logarithm, 4) \o Low(b.cube_owner, 2) \o Low(b.on_action, 1) \o Low(IF b.crawford THEN 1 ELSE 0, 1)
  \o Low(b.game_state, 3) \o Low(b.on_inner_action, 1) \o Low(IF b.doubled THEN 1 ELSE 0, 1) \o Low(b.resign_offer, 2)
  \o Low(b.rolled[1], 3) \o Low(b.rolled[2], 3) \o Low(b.match_length, 15) \o Low(b.score[1], 15) \o Low(b.score[2], 15)
MatchId(b) == Digits(Pad(MatchBits(b), 72))
RECURSIVE Val(_, _, _)
Val(bits, from, n) == IF n = 0 THEN 0 ELSE bits[from + 1] + 2 * Val(bits, from + 1, n - 1)
Match(bits) ==
  [cube_in_logarithm |-> Val(bits, 0, 4), cube_owner |-> Val(bits, 4, 2), on_action |-> Val(bits, 6, 1), crawford |-> Val(bits, 7, 1) = 1,
   game_state |-> Val(bits, 8, 3), on_inner_action |-> Val(bits, 11, 1), doubled |-> Val(bits, 12, 1) = 1, resign_offer |-> Val(bits, 13, 2),
   rolled |-> <<Val(bits, 15, 3), Val(bits, 18, 3)>>, match_length |-> Val(bits, 21, 15),
   score |-> <<Val(bits, 36, 15), Val(bits, 51, 15)>>]
Inconsistent(m) == m.game_state = 1 /\ m.match_length = 0 /\ (m.score[1] > 0 \/ m.score[2] > 0)
Decode(pid, mid) ==
  LET m == Match(Bits(mid, 9))  p == PosOf(Bits(pid, TOTAL \div 8))
      s == IF m.on_action = YOU THEN <<p[2], p[1]>> ELSE p
  IN [position |-> s, cube_in_logarithm |-> m.cube_in_logarithm, cube_owner |-> m.cube_owner, on_action |-> m.on_action, crawford |-> m.crawford,
      game_state |-> m.game_state, on_inner_action |-> m.on_inner_action, doubled |-> m.doubled, resign_offer |-> m.resign_offer,
      rolled |-> m.rolled, match_length |-> m.match_length, score |-> m.score]
================================================================================
