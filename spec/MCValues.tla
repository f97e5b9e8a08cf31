--------------------------------- MODULE MCValues ---------------------------------
(* A design in which objects hold references to shared records, and setting a field *)
(* of an editor writes the record it points at: as long as making an object copies  *)
(* the record, it refines Values (Impl and the store always agree).                 *)
EXTENDS Values, TLC
CONSTANTS MAXOBJ, FIELDS, VALS
VARIABLES store, ref, heap, last
vars == <<store, ref, heap, last>>
D == [f \in FIELDS |-> 0]
Vals == [FIELDS -> VALS]
KW == {[f \in {g} |-> v] : g \in FIELDS, v \in VALS} \union {[f \in {} |-> 0]}
Alloc(v) == /\ heap' = Append(heap, v) /\ ref' = Append(ref, Len(heap) + 1)
Init == store = <<>> /\ ref = <<>> /\ heap = <<>> /\ last = 0
Grow == /\ Len(store) < MAXOBJ /\ last' = 0
        /\ \/ \E kw \in KW : (store' = NewBoard(store, kw, D) \/ store' = NewEditor(store, kw, D)) /\ Alloc(Override(D, kw))
           \/ \E i \in 1..Len(store) : store[i].kind = "editor" /\ store' = Freeze(store, i) /\ Alloc(heap[ref[i]])
           \/ \E i \in 1..Len(store), kw \in KW : store' = EditorOf(store, i, kw) /\ Alloc(Override(heap[ref[i]], kw))
           \/ \E i \in 1..Len(store) : /\ store' = CopyOf(store, i)
                                       /\ IF store[i].kind = "board" THEN ref' = Append(ref, ref[i]) /\ UNCHANGED heap   \* values may be shared
                                          ELSE Alloc(heap[ref[i]])
Write == \E i \in 1..Len(store), kw \in KW :
           /\ store' = Set(store, i, kw) /\ last' = i /\ UNCHANGED ref
           /\ heap' = IF CanSet(store, i) THEN [heap EXCEPT ![ref[i]] = Override(@, kw)] ELSE heap
Next == Grow \/ Write
Spec == Init /\ [][Next]_vars
Agree == \A i \in 1..Len(store) : store[i].val = heap[ref[i]]
Frozen == [][\A i \in 1..Len(store) : store[i].kind = "board" => store'[i] = store[i]]_vars
OneAtATime == [][\A i \in 1..Len(store) : store'[i] = store[i] \/ (i = last' /\ store[i].kind = "editor")]_vars
================================================================================
