----------------------------- MODULE IvarTable -----------------------------
(* Instance-variable tables: t maps each live table to the values of its slots *)
(* (0: unset); room maps it to the size it is known to have room for.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Empty == [t |-> <<>>, room |-> <<>>]
Put(f, x, v) == (x :> v) @@ f
Less(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Zeros(n) == [x \in 1..n |-> 0]
Max(a, b) == IF a > b THEN a ELSE b
Step(s, op, r) ==
  LET x == op[2]
      h == x[1]
      q == s.t[h]
      With(nq) == [t |-> Put(s.t, h, nq), room |-> Put(s.room, h, Max(s.room[h], Len(nq)))]
      ok == r = <<"ok", <<>>>>
  IN
  CASE op[1] = "new" -> IF ok THEN {[t |-> Put(s.t, h, <<>>), room |-> Put(s.room, h, x[2])]} ELSE {}
    [] op[1] = "push" -> IF ok THEN {With(Append(q, x[2]))} ELSE {}
    [] op[1] = "resize" -> IF ok THEN {With(q \o Zeros(Max(0, x[2] - Len(q))))} ELSE {}
    [] op[1] = "reserve" -> IF ok THEN {[s EXCEPT !.room[h] = Max(@, Len(q) + x[2])]} ELSE {}
    [] op[1] = "clone" -> IF ok THEN {[t |-> Put(s.t, x[2], q), room |-> Put(s.room, x[2], Len(q))]} ELSE {}
    [] op[1] = "write" -> IF ok THEN {With([q EXCEPT ![x[2]] = x[3]])} ELSE {}
    [] op[1] = "read" -> IF r = <<"ok", <<IF x[2] <= Len(q) THEN q[x[2]] ELSE -1>>>> THEN {s} ELSE {}
    [] op[1] = "drop" -> IF ok THEN {[t |-> Less(s.t, h), room |-> Less(s.room, h)]} ELSE {}
(* what is seen: o[1] one <<table, len, len field, capacity field, pointer field  *)
(* right, slots...>> per table; o[2] damaged guard words                      *)
Look(s, o) ==
  /\ o[2] = 0
  /\ {o[1][k][1] : k \in 1..Len(o[1])} = DOMAIN s.t
  /\ Len(o[1]) = Cardinality(DOMAIN s.t)
  /\ \A k \in 1..Len(o[1]) :
       LET e == o[1][k]
           q == s.t[e[1]]
       IN e[2] = Len(q) /\ e[3] = Len(q) /\ e[4] >= s.room[e[1]] /\ e[5] = 1 /\ SubSeq(e, 6, Len(e)) = q
==============================================================================
