-------------------------------- MODULE Sort --------------------------------
(* What sorting promises.  Elements are named by their original positions; k is *)
(* the sequence of their keys.  A comparator answers -1, 0, 1, or fails (2).   *)
EXTENDS Integers, Sequences, FiniteSets
Permutation(p, n) == Len(p) = n /\ {p[x] : x \in 1..n} = 1..n
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
(* before or equal in key order (dir 1) or its reverse (dir -1); equal keys keep *)
(* their original order                                                      *)
StableSorted(p, k, dir) ==
  \A x \in 1..(Len(p) - 1) :
    LET d == Sgn(k[p[x]] - k[p[x + 1]]) * dir IN d < 0 \/ (d = 0 /\ p[x] < p[x + 1])
(* modes: 0 by key, 1 by reversed key, others: the answers follow no order      *)
Answer(mode, k, a, b) == CASE mode = 0 -> {Sgn(k[a] - k[b])} [] mode = 1 -> {Sgn(k[b] - k[a])} [] OTHER -> {-1, 0, 1}
(* one comparison c = <<a, b, answer, elements held by neither array nor scratch>>: *)
(* whatever a comparator may run, it finds every element somewhere            *)
CallOk(mode, k, fail, j, c) ==
  /\ {c[1], c[2]} \subseteq 1..Len(k)
  /\ IF fail = j THEN c[3] = 2 ELSE c[3] \in Answer(mode, k, c[1], c[2])
  /\ \A x \in 4..Len(c) : c[x] \in {c[1], c[2]}
SortOk(x, r, c, w) ==
  LET mode == x[1]
      fail == x[2]
      k == SubSeq(x, 3, Len(x))
      failed == fail /= 0 /\ fail <= Len(c)
  IN /\ \A j \in 1..Len(c) : CallOk(mode, k, fail, j, c[j])
     /\ Permutation(r[2], Len(k))
     /\ w[2] = 0
     /\ IF failed THEN r[1] = "err" /\ w[1] = fail /\ Len(c) = fail
        ELSE r[1] = "ok" /\ (mode = 0 => StableSorted(r[2], k, 1)) /\ (mode = 1 => StableSorted(r[2], k, -1))
(* What a comparator's result x = <<kind, value>> means: 0 nil, 1 small integer,  *)
(* 2 big integer, 3 an object that compares itself with 0 (77: not comparable,  *)
(* 78: its comparison fails); a: what it was asked to compare itself with       *)
MeaningOk(x, r, a) ==
  CASE x[1] = 0 -> r = <<"err", <<1>>>> /\ a = <<>>
    [] x[1] \in {1, 2} -> r = <<"ok", <<Sgn(x[2])>>>> /\ a = <<>>
    [] x[2] = 77 -> r = <<"err", <<1>>>> /\ a = <<0>>
    [] x[2] = 78 -> r = <<"err", <<2>>>> /\ a = <<0>>
    [] OTHER -> r = <<"ok", <<Sgn(x[2])>>>> /\ a = <<0>>
==============================================================================
