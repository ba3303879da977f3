------------------------------- MODULE GcHeap -------------------------------
(* The garbage-collected heap as the runtime's allocator must present it.      *)
(* A node is a group of cells that live and die together; nd maps the nodes   *)
(* not yet reclaimed to their size, whether they may become old, the number   *)
(* of collections survived and whether they are old.  ref maps the reference  *)
(* places (node, cell, slot) to nodes, root the root places to nodes (0:      *)
(* nothing).  fig are the heap's own figures, in this order: objects ever     *)
(* allocated and reclaimed, pages in service, empty pages, slots in service,  *)
(* slots that can be handed out without another page, reclaimed slots, live   *)
(* objects at the last collection, old objects, minor and full collections,   *)
(* pages ever put into service and ever retired.                              *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
OldAge == 3
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

HInit(f0) == [nd |-> <<>>, ref |-> <<>>, root |-> [r \in 1..6 |-> 0], next |-> 1, on |-> TRUE, live |-> 0, fig |-> f0]

(* ---------------------------------------------------------- reachability *)
Targets(h, S) == {h.ref[p] : p \in {q \in DOMAIN h.ref : q[1] \in S}} \ {0}
RECURSIVE Close(_, _)
Close(h, S) == LET T == S \cup Targets(h, S) IN IF T = S THEN S ELSE Close(h, T)
Held(h) == {h.root[r] : r \in 1..6} \ {0}
Reach(h) == Close(h, Held(h))
Old(h) == {n \in DOMAIN h.nd : h.nd[n].old}
Cells(h, S) == FoldSet(LAMBDA n, a : a + h.nd[n].n, 0, S)

(* ------------------------------------------------------------ collections *)
(* what a collection must keep: a full one what the roots reach, a minor one   *)
(* also every old object and whatever an old object (dead or not) reaches     *)
Kept(h, major) == IF major THEN Reach(h) ELSE Close(h, Held(h) \cup Old(h))
Aged(x) == IF x.old \/ ~x.promo THEN x ELSE [x EXCEPT !.age = @ + 1, !.old = x.age + 1 >= OldAge]
Collect(h, major) ==
  LET K == Kept(h, major) \cap DOMAIN h.nd
      D == DOMAIN h.nd \ K
  IN [h EXCEPT !.nd = [n \in K |-> Aged(h.nd[n])],
               !.ref = Without(h.ref, {p \in DOMAIN h.ref : p[1] \in D}),
               !.live = Cells(h, K)]
Reclaimed(h, major) == {<<n, h.nd[n].n>> : n \in DOMAIN h.nd \ Kept(h, major)}

(* ---------------------------------------------------------------- figures *)
(* relations that hold at all times *)
FigOk(h, f) ==
  LET alive == Cells(h, DOMAIN h.nd) IN
  /\ f[1] - f[2] = alive            \* allocated minus reclaimed
  /\ f[5] - f[6] = alive            \* slots in service minus slots to hand out
  /\ f[9] = Cells(h, Old(h))
  /\ f[12] - f[13] = f[3]
  /\ f[8] = h.live
  /\ 0 <= f[7] /\ f[7] <= f[6]
(* handing out `want` slots: the reclaimed ones first, then the rest of the    *)
(* page in use, then an empty page, then a new one                            *)
FigNew(b, f, want) ==
  LET P == b[5] \div b[3]
      more == IF want <= b[6] THEN 0 ELSE (want - b[6] + P - 1) \div P
  IN /\ f[1] = b[1] + want /\ f[2] = b[2]
     /\ f[3] = b[3] + more
     /\ f[3] + f[4] = b[3] + b[4] + Max2(0, more - b[4])
     /\ f[5] = f[3] * P
     /\ f[6] = b[6] + more * P - want
     /\ f[7] = Max2(0, b[7] - want)
     /\ f[10] = b[10] /\ f[11] = b[11] /\ f[13] = b[13]
FigGc(b, f, major) ==
  /\ f[1] = b[1]
  /\ f[3] <= b[3] /\ f[3] + f[4] = b[3] + b[4]
  /\ f[5] * b[3] = f[3] * b[5]
  /\ f[6] - f[7] = b[6] - b[7]
  /\ f[10] = b[10] + (IF major THEN 0 ELSE 1)
  /\ f[11] = b[11] + (IF major THEN 1 ELSE 0)

(* ------------------------------------------------------------------- steps *)
Pairs(s, from) == {<<s[from + 2 * k], s[from + 2 * k + 1]>> : k \in 0..((Len(s) - from + 1) \div 2 - 1)}
(* {} or the one state after event e; e = operation o, result r, damaged      *)
(* nodes d, old nodes with their old cells k, figures f                       *)
HStep(h, e) ==
  LET name == e.o[1]
      x == e.o[2]
      ok == e.r[1] = "ok"
      y == e.r[2]
      b == h.fig
      f == e.f
      at(g) == [g EXCEPT !.fig = f]
  IN
  CASE name = "new" ->
         LET want == x[1] * x[2]
             ids == h.next..(h.next + x[1] - 1)
             g == [h EXCEPT !.nd = [n \in DOMAIN h.nd \cup ids |->
                                      IF n \in ids THEN [n |-> x[2], promo |-> x[3] = 1, age |-> 0, old |-> FALSE] ELSE h.nd[n]],
                            !.next = @ + x[1]]
         IN IF ok /\ y[1] = h.next /\ y[3] = 0 /\ y[2] >= Min2(want, b[7]) /\ FigNew(b, f, want) THEN {at(g)} ELSE {}
    [] name = "set" ->
         LET p == <<x[1], x[2], x[3]>>
             g == [h EXCEPT !.ref = IF x[4] = 0 THEN Without(h.ref, {p}) ELSE With(h.ref, p, x[4])]
         IN IF ok /\ f = b THEN {at(g)} ELSE {}
    [] name = "root" -> IF ok /\ f = b THEN {at([h EXCEPT !.root[x[1]] = x[2]])} ELSE {}
    [] name = "off" -> IF ok /\ f = b THEN {at([h EXCEPT !.on = (x[1] = 0)])} ELSE {}
    [] name \in {"gc", "full"} ->
         IF ~ok THEN {}
         ELSE IF ~h.on THEN IF f = b /\ y = <<0, 0>> THEN {at(h)} ELSE {}
         ELSE IF y[1] + y[2] /= 1 \/ (name = "full" /\ y[2] /= 1) THEN {}
         ELSE LET major == y[2] = 1
                  got == Pairs(y, 3)
              IN IF got = Reclaimed(h, major) /\ FigGc(b, f, major) THEN {at(Collect(h, major))} ELSE {}
(* the observation after the event *)
HObsOk(h, e) ==
  /\ e.d = <<>>
  /\ Pairs(e.k, 1) = {<<n, h.nd[n].n>> : n \in Old(h)}
  /\ FigOk(h, e.f)
==============================================================================
