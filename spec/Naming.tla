------------------------------- MODULE Naming -------------------------------
(* How classes and modules get their names by being made constants.          *)
(*                                                                           *)
(* Object is 2; the others are numbered from 4 on. A name is a sequence of   *)
(* constants 1..NC, of given names 11.. and of nameless modules 100 + x. It  *)
(* is there to stay once it leads from Object to the module. The rest, names *)
(* below a nameless module and given ones, are makeshift: of these only the  *)
(* end is laid down.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Object == 2
First == 4
CONSTANT NC
Nobody == [j \in 1..NC |-> 0]
\* k: the constants of each, name: what Module#name says, stay: for good,
\* leaf: how a makeshift name ends
None == [k |-> Nobody, name |-> <<>>, stay |-> 0, leaf |-> 0]
Start == [k |-> <<None, [None EXCEPT !.stay = 1], [None EXCEPT !.stay = 1]>>]
All(st) == First..Len(st.k)
Stays(st, x) == st.k[x].stay = 1
Bound(st, c, n, m) == [st EXCEPT !.k[c].k[n] = m]
\* all that become named for good together with m
RECURSIVE Grown(_, _)
Grown(st, S) ==
  LET more == {x \in All(st) : ~Stays(st, x) /\ \E p \in S : \E j \in 1..NC : st.k[p].k[j] = x}
  IN IF more \subseteq S THEN S ELSE Grown(st, S \cup more)
Path(st, c, n) == IF c = Object THEN <<n>> ELSE Append(st.k[c].name, n)
\* the names seen afterwards, nm, for a binding of m as the constant n of c
Named(st, c, n, m, nm) ==
  LET now == Bound(st, c, n, m)
      new == IF Stays(st, c) /\ ~Stays(st, m) THEN Grown(now, {m}) ELSE {}
      leaf(x) == IF x = m /\ ~Stays(st, m) /\ st.k[m].leaf = 0 THEN n ELSE st.k[x].leaf
  IN [st |-> [k |-> [x \in 1..Len(st.k) |->
                       [now.k[x] EXCEPT !.name = IF x < First THEN @ ELSE nm[x], !.leaf = leaf(x),
                                        !.stay = IF x \in new THEN 1 ELSE @]]],
      ok |-> /\ m \in new => nm[m] = Path(st, c, n)
             /\ \A x \in new \ {m} : \E p \in new : \E j \in 1..NC : now.k[p].k[j] = x /\ nm[x] = Append(nm[p], j)]
Given(st, x, t, nm) ==
  [st |-> [k |-> [y \in 1..Len(st.k) |->
                    [st.k[y] EXCEPT !.name = IF y < First THEN @ ELSE nm[y], !.leaf = IF y = x THEN 10 + t ELSE @]]],
   ok |-> nm[x] = <<10 + t>>]
Seen(st, nm) == [k |-> [y \in 1..Len(st.k) |-> [st.k[y] EXCEPT !.name = IF y < First THEN @ ELSE nm[y]]]]
\* what holds of names whatever was done: those for good do not change, the
\* others end as they should and are told from those for good by their start
Sound(old, st) == \A x \in All(st) :
  LET nm == st.k[x].name IN
  /\ x <= Len(old.k) /\ Stays(old, x) => nm = old.k[x].name
  /\ ~Stays(st, x) => IF st.k[x].leaf = 0 THEN nm = <<>>
                      ELSE nm # <<>> /\ nm[Len(nm)] = st.k[x].leaf /\ \A j \in 1..Len(nm) : nm[j] > 10 => j = 1
\* a step, its answer and the names seen afterwards
Does(st, op, nm) ==
  LET x == op[2]
      add(e) == [st |-> Seen([k |-> Append(st.k, e)], nm), r |-> <<Len(st.k) + 1>>, ok |-> TRUE]
  IN CASE op[1] \in {"module", "class"} -> add(None)
       [] op[1] = "dup" -> add([None EXCEPT !.k = st.k[x].k])
       [] op[1] = "bind" -> LET b == Named(st, x, op[3], op[4], nm) IN [st |-> b.st, r |-> <<0>>, ok |-> b.ok]
       [] op[1] = "unset" -> [st |-> Seen([st EXCEPT !.k[x].k[op[3]] = 0], nm),
                              r |-> IF st.k[x].k[op[3]] = 0 THEN <<0>> ELSE <<1, 0>>, ok |-> TRUE]
       [] op[1] = "temp" -> IF Stays(st, x) THEN [st |-> Seen(st, nm), r |-> <<1>>, ok |-> TRUE]
                            ELSE LET g == Given(st, x, op[3], nm) IN [st |-> g.st, r |-> <<0>>, ok |-> g.ok]
=============================================================================
