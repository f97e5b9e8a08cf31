--------------------------------- MODULE MCDbByte ---------------------------------
EXTENDS DbByte, TLC
CONSTANT MAXC
Sides == [1..N+1 -> 0..MAXC]
Positions == {p \in Sides \X Sides : \A k \in 1..N : p[1][k] = 0 \/ p[2][N + 1 - k] = 0}
VARIABLES p, q, go
Init == p \in Positions /\ q = p /\ go = FALSE
Next == ~go /\ go' = TRUE /\ UNCHANGED p /\ q' \in Positions
Spec == Init /\ [][Next]_<<p, q, go>>
B(x, on) == [position |-> <<x[1], x[2]>>, on_action |-> on]
RoundTrip == \A on \in {0, 1} : Position(Encode(B(p, on)), on) = <<p[1], p[2]>>
Mirror == Encode(B(p, 0)) = Encode(B(<<p[2], p[1]>>, 1))
Injective == (Encode(B(p, 0)) = Encode(B(q, 0))) = (p = q)
Metric == LET d == Dist(Encode(B(p, 0)), Encode(B(q, 0))) IN
          (d = 0) = (p = q) /\ d = Dist(Encode(B(q, 0)), Encode(B(p, 0)))
          \* looking from the other side changes nothing
          /\ d = Dist(Encode(B(p, 1)), Encode(B(q, 1)))
================================================================================
