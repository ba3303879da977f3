------------------------------ MODULE Classes ------------------------------
(* Classes, modules, singleton classes and refinements of the runtime:       *)
(* which modules stand where in an ancestor list, what a method name         *)
(* resolves to, where super goes, and what the reflection lists contain.     *)
(*                                                                           *)
(* Classes and modules are numbered; 1 is BasicObject, 2 Object, 3 Kernel.   *)
(* Each has its own region of the ancestor list: the prepended modules, then *)
(* itself, then the included modules. A class goes on with the list of its   *)
(* superclass; a module's list ends there, though a method lookup started    *)
(* from a module goes on with Object.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
BasicObject == 1
Object == 2
Kernel == 3
NNames == 3
\* functions 9..12 are made by define_method from the bodies 13..16
Body(f) == IF f \in 9..12 THEN f + 4 ELSE 0
NoEntry == [k |-> "none", f |-> 0, v |-> 0, o |-> 0]
NoMethods == [n \in 1..NNames |-> NoEntry]
Fresh(kind, sup) ==
  [kind |-> kind, sup |-> sup, pre |-> <<>>, inc |-> <<>>, org |-> FALSE, tab |-> NoMethods, refs |-> <<>>, of |-> 0]
Start ==
  [c |-> <<Fresh("class", 0), [Fresh("class", BasicObject) EXCEPT !.inc = <<Kernel>>], Fresh("module", 0)>>,
   o |-> <<>>,            \* the class of each object
   s |-> << <<>> >>]      \* the sets of activated refinements, the first one empty
Range(s) == {s[k] : k \in 1..Len(s)}
Pos(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x /\ \A j \in 1..k-1 : s[j] # x
From(s, k) == SubSeq(s, k, Len(s))
RECURSIVE Select(_, _)
Select(s, out) == IF s = <<>> THEN <<>>
                  ELSE (IF s[1] \in out THEN <<>> ELSE <<s[1]>>) \o Select(Tail(s), out)
------------------------------------------------------------------------------
(* Ancestor lists *)
Region(st, x) == st.c[x].pre \o <<x>> \o st.c[x].inc
RECURSIVE Ancestors(_, _)
Ancestors(st, x) ==
  Region(st, x) \o (IF st.c[x].kind = "module" \/ st.c[x].sup = 0 THEN <<>> ELSE Ancestors(st, st.c[x].sup))
Chain(st, x) == IF st.c[x].kind = "module" THEN Region(st, x) \o Ancestors(st, Object) ELSE Ancestors(st, x)
\* `list`, the modules of one region, with the modules of `chain` mixed in
\* behind position `at`. One that is there already stays where it is and the
\* following ones go behind it; one of `before` or `after` is skipped.
RECURSIVE Mix(_, _, _, _, _)
Mix(list, at, chain, before, after) ==
  IF chain = <<>> THEN list
  ELSE LET m == chain[1] IN
    IF m \in before THEN Mix(list, at, Tail(chain), before, after)
    ELSE IF m \in Range(list)
      THEN Mix(list, IF Pos(list, m) > at THEN Pos(list, m) ELSE at, Tail(chain), before, after)
    ELSE IF m \in after THEN Mix(list, at, Tail(chain), before, after)
    ELSE Mix(SubSeq(list, 1, at) \o <<m>> \o From(list, at + 1), at + 1, Tail(chain), before, after)
Cyclic(st, x, m) == x \in Range(Region(st, m))
Included(st, x, m) ==
  [st EXCEPT !.c[x].inc =
    Mix(@, 0, Region(st, m), Range(st.c[x].pre),
        IF st.c[x].kind = "module" \/ st.c[x].sup = 0 THEN {} ELSE Range(Ancestors(st, st.c[x].sup)))]
\* Whoever has mixed in x before x got its prepended modules gets them too:
\* right above x, unless they already stand further above.
Spliced(r, y, x, pre) ==
  IF x \notin Range(r) THEN r
  ELSE LET p == Pos(r, x)
           old == Range(pre) \ {y}
           s == CHOOSE s \in 1..p : (\A k \in s..p-1 : r[k] \in old) /\ (s = 1 \/ r[s-1] \notin old)
       IN SubSeq(r, 1, s - 1) \o Select(pre, {y} \cup Range(SubSeq(r, 1, s - 1))) \o From(r, p)
Prepended(st, x, m) ==
  LET pre == Mix(st.c[x].pre, 0, Region(st, m), {}, {})
      step(y) ==
        IF y = x THEN [st.c[y] EXCEPT !.pre = pre, !.org = TRUE]
        ELSE IF st.c[x].kind # "module" THEN st.c[y]
        ELSE LET r == Spliced(Region(st, y), y, x, pre)
             IN IF r = Region(st, y) THEN st.c[y]
                ELSE [st.c[y] EXCEPT !.pre = SubSeq(r, 1, Pos(r, y) - 1), !.inc = From(r, Pos(r, y) + 1)]
  IN [st EXCEPT !.c = [y \in 1..Len(st.c) |-> step(y)]]
\* A copy has regions of its own and owns the copied methods.
Owned(tab, x, y) == [n \in 1..NNames |-> IF tab[n].o = x THEN [tab[n] EXCEPT !.o = y] ELSE tab[n]]
Copied(st, x) ==
  [st EXCEPT !.c = Append(@, [st.c[x] EXCEPT !.tab = Owned(@, x, Len(st.c) + 1), !.refs = <<>>, !.of = 0])]
RECURSIVE Real(_, _)
Real(st, x) == IF st.c[x].kind = "single" THEN Real(st, st.c[x].sup) ELSE x
------------------------------------------------------------------------------
(* Method lookup *)
\* The places a lookup passes: [c |-> class, t |-> its table counts there,
\* h |-> its refinements do]. A class with prepended modules is passed twice.
Places(st, x) ==
  LET region(y) ==
        (IF st.c[y].org THEN << [c |-> y, t |-> FALSE] >> ELSE <<>>)
        \o [k \in 1..Len(Region(st, y)) |-> [c |-> Region(st, y)[k], t |-> TRUE]]
      RECURSIVE up(_)
      up(y) == region(y) \o (IF st.c[y].kind = "module" THEN up(Object)
                             ELSE IF st.c[y].sup = 0 THEN <<>> ELSE up(st.c[y].sup))
  IN up(x)
Miss == <<>>
\* the activated refinements of c that define n, the first one first
Refined(st, set, c, n) ==
  SelectSeq(set, LAMBDA p : p[1] = c /\ st.c[p[2]].tab[n].k \in {"def", "shadow"})
RECURSIVE Walk(_, _, _, _, _, _)
Walk(st, ps, n, set, vis, sh) ==
  IF ps = <<>> THEN (IF sh = NoEntry THEN Miss ELSE <<sh.f, vis, sh.o>>)
  ELSE LET p == ps[1]
           e == st.c[p.c].tab[n]
           rs == Refined(st, set, p.c, n)
       IN IF rs # <<>>
          THEN LET x == st.c[rs[1][2]].tab[n] IN <<x.f, IF vis = -1 THEN x.v ELSE vis, x.o>>
          ELSE IF ~p.t \/ e.k = "none" THEN Walk(st, Tail(ps), n, set, vis, sh)
          ELSE IF e.k = "undef" THEN Miss
          ELSE IF e.k = "def"
            THEN <<e.f, IF vis = -1 THEN e.v ELSE vis, IF sh = NoEntry THEN e.o ELSE sh.o>>
          ELSE Walk(st, Tail(ps), n, set, IF vis = -1 THEN e.v ELSE vis, IF sh = NoEntry THEN e ELSE sh)
Lookup(st, x, n, set) == Walk(st, Places(st, x), n, set, -1, NoEntry)
Method(st, x, n) == Lookup(st, x, n, <<>>)
------------------------------------------------------------------------------
(* Method tables *)
Defined(st, x, n, f, v) == [st EXCEPT !.c[x].tab[n] = [k |-> "def", f |-> f, v |-> v, o |-> x]]
Undefined(st, x, n) == [st EXCEPT !.c[x].tab[n] = [k |-> "undef", f |-> 0, v |-> 3, o |-> x]]
Removed(st, x, n) == [st EXCEPT !.c[x].tab[n] = NoEntry]
\* `private :n` and the like, which is not about prepended modules. What is
\* inherited gets an entry of its own that stands for whatever is inherited at
\* the time of the call.
Itself(st, x) == LET ps == Places(st, x) IN From(ps, Pos(ps, [c |-> x, t |-> TRUE]))
Inherent(st, x, n) == Walk(st, Itself(st, x), n, <<>>, -1, NoEntry)
WithVisibility(st, x, n, v) ==
  LET cur == Inherent(st, x, n)
      e == st.c[x].tab[n]
      rest == Walk(st, Tail(Itself(st, x)), n, <<>>, -1, NoEntry)
  IN IF e.k # "none"
     THEN [st EXCEPT !.c[x].tab[n].v = v, !.c[x].tab[n].f = IF e.k = "shadow" /\ rest # Miss THEN rest[1] ELSE @]
     ELSE IF cur[2] = v THEN st
     ELSE [st EXCEPT !.c[x].tab[n] = [k |-> "shadow", f |-> cur[1], v |-> v, o |-> x]]
------------------------------------------------------------------------------
(* super *)
\* the places where n is defined as the function f, or as made of the body f
Runs(st, ps, n, f) ==
  LET idx == {k \in 1..Len(ps) : ps[k].t /\ LET e == st.c[ps[k].c].tab[n] IN e.k = "def" /\ f \in {e.f, Body(e.f)}}
      RECURSIVE sorted(_)
      sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A j \in S : m <= j IN <<m>> \o sorted(S \ {m})
  IN sorted(idx)
After(st, ps, k, n) == LET r == Walk(st, From(ps, k + 1), n, <<>>, -1, NoEntry) IN IF r = Miss THEN 0 ELSE r[1]
Supers(st, x) ==
  LET ps == Places(st, x)
      rows(n, f) ==
        LET at == Runs(st, ps, n, f)
            only == After(st, ps, at[1], n)
        IN IF at = <<>> THEN <<>>
           ELSE << <<x, n, f, Len(at), IF Len(at) > 1 \/ only = f THEN 0 ELSE only>>
                   \o [k \in 1..Len(at) |-> After(st, ps, at[k], n)] >>
      RECURSIVE all(_, _)
      all(n, f) == IF n > NNames THEN <<>>
                   ELSE rows(n, f) \o (IF f = 16 THEN all(n + 1, 1) ELSE all(n, f + 1))
  IN all(1, 1)
------------------------------------------------------------------------------
(* Reflection lists, as sets of names *)
\* the first entry for n among the tables of the classes of `list`
RECURSIVE First(_, _, _)
First(st, list, n) ==
  IF list = <<>> THEN NoEntry
  ELSE IF st.c[list[1]].tab[n].k # "none" THEN st.c[list[1]].tab[n] ELSE First(st, Tail(list), n)
Shown(st, list, vs) ==
  {n \in 1..NNames : LET e == First(st, list, n) IN e.k \in {"def", "shadow"} /\ e.v \in vs}
Mask(S) == (IF 1 \in S THEN 1 ELSE 0) + (IF 2 \in S THEN 2 ELSE 0) + (IF 3 \in S THEN 4 ELSE 0)
\* before Object's own region
BelowObject(st, x) ==
  LET RECURSIVE up(_)
      up(y) == IF y \in {0, Object} THEN <<>>
               ELSE Region(st, y) \o (IF st.c[y].kind = "module" THEN <<>> ELSE up(st.c[y].sup))
  IN up(x)
IsBasic(st, x) == Object \notin Range(Chain(st, x))
ToObject(st, x) == BelowObject(st, x) \o (IF IsBasic(st, x) THEN <<>> ELSE <<Object>>)
\* the singleton class's region and the class itself
Direct(st, x) == IF st.c[x].kind = "single" THEN Region(st, x) \o <<st.c[x].sup>> ELSE <<x>>
Singly(st, x) == IF st.c[x].kind = "single" THEN Region(st, x) ELSE <<>>
Known(st, x, n) ==
  IF st.c[x].kind = "module"
  THEN LET e == First(st, Region(st, x), n) IN IF e.k \in {"def", "shadow"} THEN e.v ELSE -1
  ELSE LET m == Method(st, x, n) IN IF m = Miss THEN -1 ELSE m[2]
Own(st, x, n) == LET e == st.c[x].tab[n] IN IF e.k \in {"def", "shadow"} THEN e.v ELSE -1
Lists(st, x) ==
  LET own == <<x>>
      inh == BelowObject(st, x)
  IN << Mask(Shown(st, own, {0, 1})), Mask(Shown(st, own, {0})), Mask(Shown(st, own, {2})), Mask(Shown(st, own, {1})),
        Mask({n \in 1..NNames : st.c[x].tab[n].k = "undef"}),
        Mask(Shown(st, inh, {0, 1})), Mask(Shown(st, inh, {0})), Mask(Shown(st, inh, {2})), Mask(Shown(st, inh, {1})),
        Mask(Shown(st, Direct(st, x), {0})), Mask(Shown(st, Direct(st, x), {2})), Mask(Shown(st, Direct(st, x), {1})),
        Mask(Shown(st, ToObject(st, x), {2})), Mask(Shown(st, ToObject(st, x), {1})),
        Mask(Shown(st, Singly(st, x), {0, 1})) >>
     \o << Known(st, x, 1), Own(st, x, 1), Known(st, x, 2), Own(st, x, 2), Known(st, x, 3), Own(st, x, 3) >>
------------------------------------------------------------------------------
(* Refinements *)
RECURSIVE Activated(_, _)
Activated(set, added) ==
  IF added = <<>> THEN set
  ELSE Activated(<<added[1]>> \o SelectSeq(set, LAMBDA p : p # added[1]), Tail(added))
\* sets are told apart by what stands before what for one class
Same(s, t) == Range(s) = Range(t) /\ \A c \in {p[1] : p \in Range(s)} :
                SelectSeq(s, LAMBDA p : p[1] = c) = SelectSeq(t, LAMBDA p : p[1] = c)
\* what `using m` activates: the refinements of m's ancestors, its own last
RECURSIVE Offered(_, _)
Offered(st, list) ==
  IF list = <<>> THEN <<>>
  ELSE Offered(st, Tail(list)) \o [k \in 1..Len(st.c[list[1]].refs) |-> <<st.c[st.c[list[1]].refs[k]].of, st.c[list[1]].refs[k]>>]
------------------------------------------------------------------------------
(* Steps: the new state and the answer *)
Step(st, op) ==
  LET x == op[2]
      n == Len(st.c) + 1
      single(o) == IF st.c[st.o[o]].kind = "single" THEN [st |-> st, id |-> st.o[o]]
                   ELSE [st |-> [st EXCEPT !.c = Append(@, Fresh("single", st.o[o])), !.o[o] = n], id |-> n]
  IN CASE op[1] = "class" -> [st |-> [st EXCEPT !.c = Append(@, Fresh("class", x))], r |-> <<n>>]
       [] op[1] = "module" -> [st |-> [st EXCEPT !.c = Append(@, Fresh("module", 0))], r |-> <<n>>]
       [] op[1] = "obj" -> [st |-> [st EXCEPT !.o = Append(@, x)], r |-> <<Len(st.o) + 1>>]
       [] op[1] = "sing" -> [st |-> single(x).st, r |-> <<single(x).id>>]
       [] op[1] = "include" -> IF Cyclic(st, x, op[3]) THEN [st |-> st, r |-> <<1>>]
                               ELSE [st |-> Included(st, x, op[3]), r |-> <<0>>]
       [] op[1] = "prepend" -> IF Cyclic(st, x, op[3]) THEN [st |-> [st EXCEPT !.c[x].org = TRUE], r |-> <<1>>]
                               ELSE [st |-> Prepended(st, x, op[3]), r |-> <<0>>]
       [] op[1] = "extend" -> LET s == single(x) IN [st |-> Included(s.st, s.id, op[3]), r |-> <<s.id, 0>>]
       [] op[1] = "dup" -> [st |-> Copied(st, x), r |-> <<n>>]
       [] op[1] = "clone" ->
            IF st.c[st.o[x]].kind # "single" THEN [st |-> [st EXCEPT !.o = Append(@, st.o[x])], r |-> <<Len(st.o) + 1, 0>>]
            ELSE [st |-> [Copied(st, st.o[x]) EXCEPT !.o = Append(@, n)], r |-> <<Len(st.o) + 1, n>>]
       [] op[1] = "def" -> [st |-> Defined(st, x, op[3], op[4], op[5]), r |-> <<0>>]
       [] op[1] = "undef" -> [st |-> Undefined(st, x, op[3]), r |-> <<0>>]
       [] op[1] = "remove" -> [st |-> Removed(st, x, op[3]), r |-> <<IF st.c[x].tab[op[3]].k = "none" THEN 1 ELSE 0>>]
       [] op[1] = "vis" -> IF Inherent(st, x, op[3]) = Miss THEN [st |-> st, r |-> <<1>>]
                           ELSE [st |-> WithVisibility(st, x, op[3], op[4]), r |-> <<0>>]
       [] op[1] = "refine" -> [st |-> [st EXCEPT !.c = Append([@ EXCEPT ![x].refs = Append(@, n)], [Fresh("module", 0) EXCEPT !.of = op[3]])],
                               r |-> <<n>>]
       [] op[1] = "using" ->
            LET set == Activated(st.s[x], Offered(st, Ancestors(st, op[3])))
                same == {k \in 1..Len(st.s) : Same(st.s[k], set)}
            IN IF same # {} THEN [st |-> st, r |-> <<CHOOSE k \in same : TRUE>>]
               ELSE [st |-> [st EXCEPT !.s = Append(@, set)], r |-> <<Len(st.s) + 1>>]
=============================================================================
