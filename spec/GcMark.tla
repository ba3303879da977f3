------------------------------- MODULE GcMark -------------------------------
(* How the collector works: old objects start a minor collection marked, so   *)
(* an old object's references are only followed when the object is in the     *)
(* remembered set.  An old object is either armed (its next reference store   *)
(* puts it in the set) or remembered.                                         *)
(* State m: objects al, their places ref, the roots, ages, old objects,       *)
(* armed objects, remembered objects.                                         *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Places, RootPlaces, Age

Blank == [al |-> {}, ref |-> <<>>, root |-> [r \in RootPlaces |-> 0], age |-> <<>>, old |-> {}, armed |-> {}, rem |-> {}]
Upd(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Kids(m, o) == {m.ref[<<o, s>>] : s \in Places} \ {0}
AllKids(m, S) == UNION {Kids(m, o) : o \in S}
Roots(m) == {m.root[r] : r \in RootPlaces} \ {0}

(* ------------------------------------------------- what must be preserved *)
RECURSIVE Close(_, _)
Close(m, S) == LET T == S \cup AllKids(m, S) IN IF T = S THEN S ELSE Close(m, T)
Reachable(m) == Close(m, Roots(m))
MustKeep(m, major) == IF major THEN Reachable(m) ELSE Close(m, Roots(m) \cup m.old)

(* -------------------------------------------------------------- mechanism *)
(* marks spread from `front`, never through an object already marked          *)
RECURSIVE Spread(_, _, _)
Spread(m, marked, front) ==
  LET new == front \ marked IN IF new = {} THEN marked ELSE Spread(m, marked \cup new, AllKids(m, new))
YoungChild(m, o) == Kids(m, o) \ m.old /= {}

New(m, o, r) ==
  [m EXCEPT !.al = @ \cup {o},
            !.ref = [p \in DOMAIN @ \cup ({o} \X Places) |-> IF p[1] = o THEN 0 ELSE @[p]],
            !.root = [@ EXCEPT ![r] = o], !.age = Upd(@, o, 0)]
Store(m, o, s, b) ==
  LET n == [m EXCEPT !.ref[<<o, s>>] = b]
  IN IF o \in m.armed /\ b /= 0 THEN [n EXCEPT !.armed = @ \ {o}, !.rem = @ \cup {o}] ELSE n
SetRoot(m, r, b) == [m EXCEPT !.root[r] = b]

(* the marked set and the remembered set a minor collection leaves *)
MinorMarks(m) == Spread(m, Spread(m, m.old, Roots(m)), AllKids(m, m.rem))
Marks(m, major) == IF major THEN Spread(m, {}, Roots(m)) ELSE MinorMarks(m)
Collect(m, major) ==
  LET K == Marks(m, major) \cap m.al
      keep1 == IF major THEN m.rem ELSE {o \in m.rem : YoungChild(m, o)}
      armed1 == m.armed \cup (m.rem \ keep1)
      young == K \ m.old
      grown == {o \in young : m.age[o] + 1 >= Age}
      m2 == [m EXCEPT !.old = @ \cup grown, !.age = [o \in DOMAIN @ |-> IF o \in young THEN @[o] + 1 ELSE @[o]]]
      rem2 == (keep1 \cup {o \in grown : YoungChild(m2, o)}) \cap K
      armed2 == armed1 \cup {o \in grown : ~YoungChild(m2, o)}
      keep3 == IF major THEN {o \in rem2 : YoungChild(m2, o)} ELSE rem2
  IN [al |-> K, ref |-> [p \in {q \in DOMAIN m.ref : q[1] \in K} |-> m.ref[p]], root |-> m.root,
      age |-> [o \in K |-> m2.age[o]], old |-> m2.old \cap K,
      armed |-> (armed2 \cup (rem2 \ keep3)) \cap K, rem |-> keep3]

(* ---------------------------------------------------------------- its laws *)
GcOk(m) ==
  /\ Reachable(m) \subseteq m.al                     \* nothing reachable was reclaimed
  /\ \A o \in m.al : Kids(m, o) \subseteq m.al       \* not even by unreachable old objects
  /\ m.armed \cap m.rem = {} /\ m.armed \cup m.rem = m.old
  /\ \A o \in m.old : YoungChild(m, o) => o \in m.rem
  /\ \A o \in m.al : (o \in m.old) = (m.age[o] >= Age)
==============================================================================
