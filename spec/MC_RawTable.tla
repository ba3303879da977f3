----------------------------- MODULE MC_RawTable -----------------------------
(* All histories of a small RawTable: identities are the hash values            *)
(* themselves, numbered apart by a small copy number.                           *)
EXTENDS RawTable
CONSTANTS H1s, Tags, Copies, MaxN
VARIABLE t
Ids == {<<h, g, k>> : h \in H1s, g \in Tags, k \in 1..Copies}
Id(x) == 1 + x[1] * 100 + x[2] * 10 + x[3]
Elem(x) == <<Id(x), x[1], x[2]>>
Slot(x) == Find(t, Id(x), x[1], x[2])
Init == t = Unallocated
Put(x)  == Slot(x) = -1 /\ t' = Insert(t, Elem(x))
Take(x) == Slot(x) >= 0 /\ t' = Erase(t, Slot(x))
Res(k)  == t' = Reserve(t, k)
Shr     == t' = ShrinkTo(t, 0)
Next == (\E x \in Ids : Put(x) \/ Take(x)) \/ (\E k \in {1, 3} : Res(k)) \/ Shr \/ t' = Clear(t)
Spec == Init /\ [][Next]_t
Bound == t.n <= MaxN
Inv == TableOk(t)
(* refinement of the bag of HashTable.tla                                       *)
BagStep ==
  \/ \E x \in Ids : Elem(x) \notin Bag(t) /\ Bag(t)' = Bag(t) \cup {Elem(x)}
  \/ \E x \in Ids : Elem(x) \in Bag(t) /\ Bag(t)' = Bag(t) \ {Elem(x)}
  \/ Bag(t)' = Bag(t) \/ Bag(t)' = {}
PutAdds  == \A x \in Ids : Put(x) => Bag(t)' = Bag(t) \cup {Elem(x)}
Sizes    == Cardinality(Bag(t)) = t.items
Refines  == [][BagStep]_t
Reserved == [][\A k \in {1, 3} : Res(k) => t'.gl >= k /\ Bag(t') = Bag(t)]_t
==============================================================================
