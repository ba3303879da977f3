----------------------------- MODULE MC_Naming ------------------------------
(* Every way of making a few modules constants of each other and of Object.  *)
(* Where the names are left open the model takes every choice there is.      *)
EXTENDS Naming
CONSTANTS Mods, Depth
VARIABLES st, was, n, dups
vars == <<st, was, n, dups>>
Init == st = Start /\ was = Start /\ n = 0 /\ dups = {}
\* every way of naming the modules of new one after the other from those in got
RECURSIVE Ways(_, _, _)
Ways(now, new, got) ==
  IF new \subseteq DOMAIN got THEN {got}
  ELSE UNION {Ways(now, new, (q[1] :> Append(got[q[2]], q[3])) @@ got) :
                q \in {t \in (new \ DOMAIN got) \X (DOMAIN got) \X (1..NC) : now.k[t[2]].k[t[3]] = t[1]}}
\* a makeshift name: the given ones alone, the others below the one that named it
Makeshift(leaf, c) == IF leaf > 10 THEN <<leaf>> ELSE <<100 + c, leaf>>
Bind(c, j, m) ==
  LET now == Bound(st, c, j, m)
      new == IF Stays(st, c) /\ ~Stays(st, m) THEN Grown(now, {m}) ELSE {}
      ways == IF new = {} THEN {<<>>} ELSE Ways(now, new, m :> Path(st, c, j))
  IN \E w \in ways :
       LET nm == [x \in All(st) |-> IF x \in new THEN w[x]
                                    ELSE IF x = m /\ ~Stays(st, m) /\ st.k[m].leaf = 0 THEN Makeshift(j, c)
                                    ELSE st.k[x].name]
           b == Does(st, <<"bind", c, j, m>>, nm)
       IN Assert(b.ok, "a name that is not allowed") /\ st' = b.st /\ UNCHANGED dups
Same == [x \in All(st) |-> st.k[x].name]
More == Same @@ (Len(st.k) + 1 :> <<>>)
Next ==
  /\ n < Depth /\ n' = n + 1 /\ was' = st
  /\ \/ Len(st.k) < First - 1 + Mods /\ st' = Does(st, <<"module", 0>>, More).st /\ UNCHANGED dups
     \/ \E x \in All(st) : /\ Len(st.k) < First - 1 + Mods /\ st.k[x].k # Nobody
                           /\ st' = Does(st, <<"dup", x>>, More).st
                           /\ dups' = dups \cup {Len(st.k) + 1}
     \/ \E c \in {Object} \cup All(st), j \in 1..NC, m \in All(st) : st.k[c].k[j] = 0 /\ Bind(c, j, m)
     \/ \E c \in {Object} \cup All(st), j \in 1..NC :
          st.k[c].k[j] # 0 /\ st' = Does(st, <<"unset", c, j>>, Same).st /\ UNCHANGED dups
     \/ \E x \in All(st) :
          LET g == Does(st, <<"temp", x, 1>>, [Same EXCEPT ![x] = IF Stays(st, x) THEN @ ELSE <<11>>])
          IN Assert(g.ok, "given") /\ st' = g.st /\ UNCHANGED dups
Spec == Init /\ [][Next]_vars
Kept == Sound(was, st) /\ \A x \in All(was) : Stays(was, x) => Stays(st, x)
\* what a module that is named for good holds is named for good as well
Closed == \A x \in All(st) \ dups : Stays(st, x) => \A j \in 1..NC : st.k[x].k[j] # 0 => Stays(st, st.k[x].k[j])
Public == \A j \in 1..NC : st.k[Object].k[j] # 0 => Stays(st, st.k[Object].k[j])
\* the name of a module that has just been named leads to it from one that
\* had its name already
RECURSIVE At(_, _)
At(x, nm) == IF nm = <<>> \/ x = 0 THEN x ELSE At(st.k[x].k[Head(nm)], Tail(nm))
New == {x \in All(st) : Stays(st, x) /\ ~(x \in All(was) /\ Stays(was, x))}
Old == {x \in All(was) : Stays(was, x)} \cup {Object}
Leads == \A x \in New : LET nm == st.k[x].name IN
  \E p \in Old : LET k == Len(st.k[p].name) IN
    Len(nm) > k /\ SubSeq(nm, 1, k) = st.k[p].name /\ At(p, SubSeq(nm, k + 1, Len(nm))) = x
Short == \A x \in All(st) : Len(st.k[x].name) <= Mods
\* nothing is named that was never a constant or given a name
Nameless == \A x \in All(st) : st.k[x].leaf = 0 /\ ~Stays(st, x) => st.k[x].name = <<>>
Apart == \A x, y \in New : x # y => st.k[x].name # st.k[y].name
=============================================================================
