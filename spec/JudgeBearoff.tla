-------------------------------- MODULE JudgeBearoff --------------------------------
EXTENDS Bearoff, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VTRACE)
VARIABLE l
F(name, ok) == IF ok THEN {} ELSE {name}
Judge(r) ==
  CASE r.op = "index" ->
         F("one-sided index", \A i \in 1..Len(r.ts) : r.got[i] = Index(r.ts[i], r.p))
         \union F("no two positions share an index", \A i, j \in 1..Len(r.ts) : r.ts[i] # r.ts[j] => r.got[i] # r.got[j])
    [] r.op = "param" -> F("bear-off parameters are the farthest point and the larger chequer count", r.got = Param(r.a, r.b))
    [] r.op = "read" ->
         UNION {LET x == r.out[i] IN
                IF Inside(r.data, r.dl, x.n)
                THEN F("a record is exactly its own bytes", x.err = "" /\ x.got = Record(r.data, r.dl, x.n))
                     \union F("a record's values are its own", r.dl # 16 \/ r.vals = <<>> \/
                              x.vals = r.vals[x.n + 1] \o <<r.vals[x.n + 1][1], 2 * r.vals[x.n + 1][2], 2 * r.vals[x.n + 1][3], r.vals[x.n + 1][4]>>)
                ELSE F("reading outside the file raises IndexError", x.err = "IndexError") : i \in 1..Len(r.out)}
Init == l = 0
Next == /\ l < Len(Trace)
        /\ LET bad == Judge(Trace[l + 1]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"@BAD", l + 1, bad>>)
        /\ l' = l + 1
        /\ (IF l' < Len(Trace) THEN TRUE ELSE PrintT(<<"@END", l'>>))
Spec == Init /\ [][Next]_l
================================================================================
