------------------------------ MODULE RubyHash ------------------------------
(* Ruby's Hash as its users see it: pairs in insertion order, keys compared  *)
(* by eql? or (compare_by_identity) by identity, a default value or proc, a  *)
(* keyword flag, and any number of nested traversals.                        *)
(*                                                                           *)
(* Objects are numbers: 0..98 immediates, 99 nil, 100.. strings, 200..       *)
(* objects with their own eql? -- two neighbours (100,101), (102,103).. are  *)
(* eql? but not identical --, 300.. procs.                                   *)
(*                                                                           *)
(* A hash is [e, ident, def, r2k, its]: e the pairs, def = <<0, value>> or   *)
(* <<1, proc>>, its the open traversals, outermost first: p entries have     *)
(* been passed, cur tells whether the entry last delivered is still there.   *)
EXTENDS Integers, Sequences, FiniteSets
Nil == 99
Heap(x) == x >= 100
Cls(x) == IF x < 100 THEN x ELSE x - (x % 2)
Same(h, a, b) == IF h.ident THEN a = b ELSE Cls(a) = Cls(b)
Empty == [e |-> <<>>, ident |-> FALSE, def |-> <<0, Nil>>, r2k |-> FALSE, its |-> <<>>]

\* the position of key k, 0 if there is none
Pos(h, k) ==
  LET M == {i \in 1..Len(h.e) : Same(h, h.e[i].k, k)}
  IN IF M = {} THEN 0 ELSE CHOOSE i \in M : TRUE
\* an existing pair keeps its place and its key, a new one goes to the end
Put(h, k, v) ==
  LET i == Pos(h, k)
  IN IF i > 0 THEN [h EXCEPT !.e[i].v = v]
     ELSE [h EXCEPT !.e = Append(h.e, [k |-> k, v |-> v])]
\* traversals stay where they are among the remaining entries
Drop(h, i) ==
  [h EXCEPT
     !.e = SubSeq(h.e, 1, i - 1) \o SubSeq(h.e, i + 1, Len(h.e)),
     !.its = [j \in 1..Len(h.its) |->
                LET t == h.its[j]
                IN IF i > t.p THEN t
                   ELSE [p |-> t.p - 1, cur |-> t.cur /\ i # t.p]]]
RECURSIVE PutAll(_, _, _)
PutAll(h, a, i) == IF i > Len(a) THEN h ELSE PutAll(Put(h, a[i], a[i + 1]), a, i + 2)
Busy(h) == Len(h.its) > 0
\* a copy is compared, defaulted and filled alike, but nobody traverses it
Copied(h) == [h EXCEPT !.its = <<>>, !.r2k = FALSE]
Equal(a, b) ==
  /\ a.ident = b.ident
  /\ Len(a.e) = Len(b.e)
  /\ \A i \in 1..Len(a.e) :
       LET j == Pos(b, a.e[i].k) IN j > 0 /\ Cls(a.e[i].v) = Cls(b.e[j].v)

\* objects a hash keeps alive
Kept(h) ==
  {x \in {h.e[i].k : i \in 1..Len(h.e)} \cup {h.e[i].v : i \in 1..Len(h.e)} \cup {h.def[2]} : Heap(x)}

\* Step(s, o): the state after operation o and its answer.  s = [h, outer,   *)
\* dig]: the hashes, the pairs of a hash whose keys are copies of hashes,    *)
\* and the digests seen so far.                                              *)
Val(x) == <<"val", <<x>>>>
Ok == <<"ok", <<>>>>
None == <<"none", <<>>>>
IsBusy == <<"busy", <<>>>>
Bool(b) == <<"bool", <<IF b THEN 1 ELSE 0>>>>
InOuter(s, h) ==
  LET M == {i \in 1..Len(s.outer) : Equal(s.outer[i].h, h)}
  IN IF M = {} THEN 0 ELSE CHOOSE i \in M : TRUE
Step(s, o) ==
  LET n == o[1]
      a == o[2]
      r == a[1]
      h == s.h[r]
      To(g, res) == [s |-> [s EXCEPT !.h[r] = g], r |-> res]
      Stay(res) == [s |-> s, r |-> res]
  IN CASE n = "new" ->
            LET base == [Empty EXCEPT !.def = CASE a[2] = 3 -> <<0, a[3]>> [] a[2] = 4 -> <<1, a[3]>> [] OTHER -> <<0, Nil>>]
            IN To(IF a[2] = 0 \/ a[2] = 2 THEN base ELSE PutAll(base, a, 4), Ok)
       [] n = "dup" \/ n = "copy" -> To(Copied(s.h[a[2]]), Ok)
       [] n = "replace" -> IF Busy(h) THEN Stay(IsBusy) ELSE To(Copied(s.h[a[2]]), Ok)
       [] n = "store" -> IF Busy(h) /\ Pos(h, a[2]) = 0 THEN Stay(IsBusy) ELSE To(Put(h, a[2], a[3]), Ok)
       [] n = "get" -> Stay(IF Pos(h, a[2]) = 0 THEN None ELSE Val(h.e[Pos(h, a[2])].v))
       [] n = "has" -> Stay(Bool(Pos(h, a[2]) > 0))
       [] n = "index" ->
            Stay(Val(IF Pos(h, a[2]) > 0 THEN h.e[Pos(h, a[2])].v
                     ELSE IF h.def[1] = 1 THEN 100000 + h.def[2] * 1000 + a[2] ELSE h.def[2]))
       [] n = "del" ->
            LET i == Pos(h, a[2]) IN IF i = 0 THEN Stay(None) ELSE To(Drop(h, i), Val(h.e[i].v))
       [] n = "shift" ->
            IF h.e = <<>> THEN Stay(None) ELSE To(Drop(h, 1), <<"pair", <<h.e[1].k, h.e[1].v>>>>)
       [] n = "clear" -> IF Busy(h) THEN Stay(IsBusy) ELSE To([h EXCEPT !.e = <<>>], Ok)
       [] n = "setdef" -> To([h EXCEPT !.def = <<0, a[2]>>], Ok)
       [] n = "setproc" -> To([h EXCEPT !.def = <<1, a[2]>>], Ok)
       [] n = "ident" -> IF Busy(h) THEN Stay(IsBusy) ELSE To([h EXCEPT !.ident = TRUE], Ok)
       [] n = "mode" -> IF Busy(h) THEN Stay(IsBusy) ELSE To([h EXCEPT !.ident = (a[2] = 1)], Ok)
       [] n = "r2k" -> To([h EXCEPT !.r2k = (a[2] = 1)], Ok)
       [] n = "begin" -> To([h EXCEPT !.its = Append(h.its, [p |-> 0, cur |-> FALSE])], Ok)
       [] n = "next" ->
            LET t == h.its[a[2]]
            IN IF t.p = Len(h.e) THEN To([h EXCEPT !.its[a[2]].cur = FALSE], None)
               ELSE To([h EXCEPT !.its[a[2]] = [p |-> t.p + 1, cur |-> TRUE]],
                       <<"pair", <<h.e[t.p + 1].k, h.e[t.p + 1].v>>>>)
       [] n = "setat" ->
            LET t == h.its[a[2]] IN To(IF t.cur THEN [h EXCEPT !.e[t.p].v = a[3]] ELSE h, Ok)
       [] n = "end" -> To([h EXCEPT !.its = SubSeq(h.its, 1, Len(h.its) - 1)], Ok)
       [] n = "eql" -> Stay(Bool(Equal(h, s.h[a[2]])))
       [] n = "nest" ->
            LET i == InOuter(s, h)
            IN [s |-> [s EXCEPT !.outer = IF i > 0 THEN [s.outer EXCEPT ![i].v = a[2]]
                                          ELSE Append(s.outer, [h |-> Copied(h), v |-> a[2]])],
                r |-> Ok]
       [] n = "find" -> Stay(LET i == InOuter(s, h) IN IF i = 0 THEN None ELSE Val(s.outer[i].v))

\* Hashes which are Equal have one digest.
Digested(s, r, d) ==
  IF \A x \in s.dig : Equal(x.h, s.h[r]) => x.d = d
  THEN {[s EXCEPT !.dig = s.dig \cup {[h |-> Copied(s.h[r]), d |-> d]}]}
  ELSE {}

\* What can be seen of a hash: every pair, its other traits, lookups of all  *)
\* keys in play, what the collector is told to keep, and what generated code *)
\* reads from memory.                                                        *)
Flat(e) == [i \in 1..2 * Len(e) |-> IF i % 2 = 1 THEN e[(i + 1) \div 2].k ELSE e[i \div 2].v]
B(b) == IF b THEN 1 ELSE 0
Traits(h) ==
  <<B(h.ident), h.def[1], h.def[2], IF h.def[1] = 0 THEN h.def[2] ELSE Nil, B(h.r2k), Len(h.e), B(h.e = <<>>),
    B(\E x \in Kept(h) : x % 2 = 1), B(Busy(h)), 1>>
Looked(h, pool) == [i \in 1..Len(pool) |-> IF Pos(h, pool[i]) = 0 THEN -1 ELSE h.e[Pos(h, pool[i])].v]
InMemory(h) ==
  <<B(h.ident), Len(h.e), IF h.def[1] = 0 THEN h.def[2] ELSE Nil, IF h.def[1] = 1 THEN h.def[2] ELSE Nil>> \o Flat(h.e)
Shows(h, e, pool) ==
  CASE e.c # Flat(h.e) -> "pairs"
    [] e.m # Traits(h) -> "traits"
    [] e.l # Looked(h, pool) -> "lookup"
    [] {e.g[i] : i \in 1..Len(e.g)} # Kept(h) -> "kept"
    [] e.raw # <<-1>> /\ e.raw # InMemory(h) -> "memory"
    [] OTHER -> ""
\* the collector has been told of every object stored
Told(old, new, w) ==
  LET W == {w[i] : i \in 1..Len(w)} IN -1 \in W \/ Kept(new) \ Kept(old) \subseteq W
=============================================================================
