----------------------------- MODULE MC_GpAlloc -----------------------------
(* The allocation scheme itself, for programs of any length: registers hold    *)
(* <<slot, dirty, age rank>>.  cur: what is up to date, as homes (1..S) and     *)
(* registers (S+g); a slot is live or not.  No operand is ever read stale.     *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Slots, Regs
VARIABLES f, live, home, val
(* f: register -> <<slot, dirty>> or <<0, FALSE>>; q: binding order, oldest     *)
(* first; home: slots whose stack home holds the slot's value; val: registers   *)
(* whose content is the value of the slot they are bound to                   *)
VARIABLE q
vars == <<f, live, home, val, q>>
NoSlot == <<0, FALSE>>
St == [f |-> f, home |-> home, val |-> val, q |-> q, ok |-> TRUE]
Init == f = [g \in Regs |-> NoSlot] /\ live = Slots /\ home = Slots /\ val = {} /\ q = <<>>
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Without(s, g) == SelectSeq(s, LAMBDA x : x /= g)
RegOf(z, s) == {g \in Regs : z.f[g][1] = s}
(* hand out a register: <<state after, register>> *)
Claim(z, pinned) ==
  LET free == {g \in Regs : z.f[g] = NoSlot} \ pinned IN
  IF free /= {} THEN <<z, Min(free)>>
  ELSE LET c == SelectSeq(z.q, LAMBDA g : g \notin pinned)
           g == c[1]
           s == z.f[g][1]
           spill == z.f[g][2]
       IN <<[z EXCEPT !.f[g] = NoSlot, !.q = Without(@, g),
                      !.home = IF spill THEN (IF g \in z.val THEN @ \cup {s} ELSE @ \ {s}) ELSE @], g>>
Bind(z, g, s, dirty, good) ==
  LET old == RegOf(z, s) IN
  [z EXCEPT !.f = [x \in Regs |-> IF x = g THEN <<s, dirty>> ELSE IF x \in old THEN NoSlot ELSE @[x]],
            !.q = Append(SelectSeq(@, LAMBDA x : x /= g /\ x \notin old), g),
            !.val = IF good THEN (@ \ old) \cup {g} ELSE @ \ (old \cup {g})]
Drop(z, G) == [z EXCEPT !.f = [x \in Regs |-> IF x \in G THEN NoSlot ELSE @[x]], !.q = SelectSeq(@, LAMBDA x : x \notin G), !.val = @ \ G]
(* bring s into a register: <<state, register, was it the right value>> *)
Ensure(z, s, pinned) ==
  IF RegOf(z, s) /= {} THEN LET g == Min(RegOf(z, s)) IN <<z, g, g \in z.val>>
  ELSE LET c == Claim(z, pinned)
           z2 == c[1]
       IN <<Bind(z2, c[2], s, FALSE, s \in z2.home), c[2], s \in z2.home>>
Inst(d, l, r, sp) ==
  LET a == Ensure(St, l, {})
      b == Ensure(a[1], r, {a[2]})
      readOk == a[3] /\ b[3] /\ (a[2] = b[2] => l = r)
      z1 == Drop(b[1], RegOf(b[1], d))
      z2 == Drop(z1, {g \in Regs : z1.f[g][1] >= sp /\ z1.f[g] /= NoSlot})
      c == Claim(z2, {b[2]})
      z3 == Bind([c[1] EXCEPT !.home = @ \ {d}], c[2], d, TRUE, TRUE)
  IN <<readOk, z3>>
Next ==
  \E d \in Slots, l \in live, r \in live : \E sp \in {x \in 1..(Cardinality(Slots) + 1) : x > d} :
    LET n == Inst(d, l, r, sp) IN
    /\ f' = n[2].f /\ home' = n[2].home /\ val' = n[2].val /\ q' = n[2].q
    /\ live' = {s \in live \cup {d} : s < sp}
Spec == Init /\ [][Next]_vars
(* every live slot has its value where it will be looked for *)
Current == \A s \in live : LET R == RegOf(St, s) IN IF R = {} THEN s \in home ELSE Cardinality(R) = 1 /\ R \subseteq val
Clean == \A g \in Regs : f[g] /= NoSlot /\ ~f[g][2] /\ f[g][1] \in live => f[g][1] \in home
Reads == \A d \in Slots, l \in live, r \in live : Inst(d, l, r, Cardinality(Slots) + 1)[1]
==============================================================================
