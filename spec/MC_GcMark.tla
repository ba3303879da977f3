----------------------------- MODULE MC_GcMark -----------------------------
(* Every heap of a few objects: the mechanism of GcMark reclaims at every      *)
(* collection exactly what GcHeap lets it reclaim.                            *)
EXTENDS GcMark, TLC
CONSTANT Objs
VARIABLE m
Init == m = Blank
Usable == Reachable(m)
Next ==
  \/ \E o \in Objs \ m.al, r \in RootPlaces : m' = New(m, o, r)
  \/ \E o \in Usable, s \in Places, b \in Usable \cup {0} : m' = Store(m, o, s, b)
  \/ \E r \in RootPlaces, b \in Usable \cup {0} : m' = SetRoot(m, r, b)
  \/ m' = Collect(m, FALSE)
  \/ m' = Collect(m, TRUE)
Spec == Init /\ [][Next]_m
Inv == GcOk(m)
(* a law of states: what either collection would keep *)
Exact == \A major \in BOOLEAN : Marks(m, major) \cap m.al = MustKeep(m, major) \cap m.al
Sym == Permutations(Objs)
==============================================================================
