--------------------------------- MODULE MCNotation ---------------------------------
EXTENDS Notation
VARIABLES n, w
Init == n \in -1..24 /\ w \in {YOU, HIM}
Next == UNCHANGED <<n, w>>
Spec == Init /\ [][Next]_<<n, w>>
\* names are read back to the index they name
Inverse == MoveIndex(MoveName(n), n \in 0..23, n + 1) = n
           /\ PointIndex(PointName(n, w), n \in 0..23, IF w = YOU THEN n + 1 ELSE 24 - n, w) = n
\* one physical point has numbers adding up to 25, and the board's name for it is the same for both players
Sum == n \in 0..23 => (n + 1) + (Flip(n) + 1) = 25 /\ PointName(n, YOU) = PointName(Flip(n), HIM) /\ Flip(Flip(n)) = n
Distinct == \A m \in -1..24 : (MoveName(m) = MoveName(n)) = (m = n) /\ (PointName(m, w) = PointName(n, w)) = (m = n)
Opponent == OppOf(OppOf(w)) = w /\ OppOf(w) # w
=====================================================================================
