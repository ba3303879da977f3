------------------------------ MODULE GpAlloc ------------------------------
(* Local register allocation for straight-line integer code.                  *)
(* A program is a sequence of <<kind, dst, lhs, rhs, sp>>: slots at or above   *)
(* sp are dead afterwards.  Values are named: a slot's initial value is minus  *)
(* the slot, the result of instruction k is k, 0 is no value.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Alive(sp, s) == s < sp
Direct(d, k, inst) == [s \in DOMAIN d |-> IF ~Alive(inst[5], s) THEN 0 ELSE IF s = inst[2] THEN k ELSE d[s]]

(* Actions: <<0, slot, reg, guard>> load, <<1, kind, dst, lhs, rhs>> operation  *)
(* on registers, <<2, slot, reg>> store.  Loads are guarded; the result may take *)
(* the left operand's register, never the right one's.  m: direct values d, stack homes h,   *)
(* registers r, instructions done k.                                          *)
Kept(m) == \A s \in DOMAIN m.d : m.d[s] = 0 \/ m.h[s] = m.d[s] \/ \E g \in DOMAIN m.r : m.r[g] = m.d[s]
ActOk(prog, m, a) ==
  CASE a[1] = 0 -> a[4] = 1 /\ a[2] \in DOMAIN m.d /\ a[3] \in DOMAIN m.r /\ m.d[a[2]] /= 0 /\ m.h[a[2]] = m.d[a[2]]
    [] a[1] = 1 -> /\ m.k < Len(prog) /\ {a[3], a[4], a[5]} \subseteq DOMAIN m.r /\ a[3] /= a[5]
                   /\ LET p == prog[m.k + 1] IN
                      a[2] = p[1] /\ m.r[a[4]] = m.d[p[3]] /\ m.r[a[5]] = m.d[p[4]]
    [] OTHER -> a[2] \in DOMAIN m.d /\ a[3] \in DOMAIN m.r /\ (m.d[a[2]] = 0 \/ m.r[a[3]] = m.d[a[2]])
Act(prog, m, a) ==
  CASE a[1] = 0 -> [m EXCEPT !.r[a[3]] = m.h[a[2]]]
    [] a[1] = 1 -> [m EXCEPT !.r[a[3]] = m.k + 1, !.d = Direct(m.d, m.k + 1, prog[m.k + 1]), !.k = m.k + 1]
    [] OTHER -> [m EXCEPT !.h[a[2]] = m.r[a[3]]]
RECURSIVE Runs(_, _, _, _)
Runs(prog, m, acts, i) ==
  IF i > Len(acts)
  THEN m.k = Len(prog) /\ \A s \in DOMAIN m.d : m.d[s] = 0 \/ m.h[s] = m.d[s]
  ELSE /\ ActOk(prog, m, acts[i])
       /\ LET n == Act(prog, m, acts[i]) IN Kept(n) /\ Runs(prog, n, acts, i + 1)
RunOk(slots, regs, prog, acts) ==
  Runs(prog, [d |-> [s \in 1..slots |-> -s], h |-> [s \in 1..slots |-> -s], r |-> [g \in 1..regs |-> 0], k |-> 0], acts, 1)

(* ---------------------------------------------------------- register file *)
(* f maps each register to <<slot, dirty>>; slot 0: free                       *)
Free == <<0, FALSE>>
FInit(regs) == [g \in 1..regs |-> Free]
RegOf(f, s) == {g \in DOMAIN f : f[g][1] = s}
Pairs(q) == {<<q[2 * k - 1], q[2 * k]>> : k \in 1..(Len(q) \div 2)}
Dirty(f) == {<<g, f[g][1]>> : g \in {x \in DOMAIN f : f[x][2]}}
Freed(f, G) == [g \in DOMAIN f |-> IF g \in G THEN Free ELSE f[g]]
FStep(f, op, r) ==
  LET x == op[2]
      y == r[2]
      pinned == {x[k] : k \in 1..Len(x)}
      open == {g \in DOMAIN f : f[g] = Free} \ pinned
  IN IF r[1] /= "ok" THEN {} ELSE
  CASE op[1] = "alloc" ->
         LET g == y[1] IN
         IF g \notin DOMAIN f \/ g \in pinned THEN {}
         ELSE IF open /= {} THEN (IF g \in open /\ Len(y) = 1 THEN {f} ELSE {})
         ELSE IF y = IF f[g][2] THEN <<g, g, f[g][1]>> ELSE <<g>> THEN {Freed(f, {g})} ELSE {}
    [] op[1] = "bind" -> {[Freed(f, RegOf(f, x[2])) EXCEPT ![x[1]] = <<x[2], x[3] = 1>>]}
    [] op[1] = "sync" ->
         IF y[1] = 0 THEN (IF RegOf(f, x[1]) = {} THEN {f} ELSE {})
         ELSE IF RegOf(f, x[1]) = {y[1]} THEN {[f EXCEPT ![y[1]] = <<x[1], FALSE>>]} ELSE {}
    [] op[1] = "pop" -> {Freed(f, {g \in DOMAIN f : f[g][1] >= x[1]})}
    [] op[1] = "drop" -> {Freed(f, RegOf(f, x[1]))}
    [] op[1] = "flush" -> IF Pairs(y) = Dirty(f) THEN {Freed(f, DOMAIN f)} ELSE {}
FLook(f, slots, s) ==
  /\ \A k \in 1..slots : IF RegOf(f, k) = {} THEN s[1][k] = 0 ELSE RegOf(f, k) = {s[1][k]}
  /\ \A k \in 1..slots : s[2][k] = IF s[1][k] /= 0 /\ f[s[1][k]][2] THEN s[1][k] ELSE 0
  /\ \A g \in DOMAIN f : (s[3][g] = 1) = (f[g] = Free)
  /\ Pairs(s[4]) = Dirty(f)
  /\ (s[5] = 1) = (\A g \in DOMAIN f : f[g] = Free)
==============================================================================
