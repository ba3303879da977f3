------------------------------ MODULE HashTable ------------------------------
(* The unordered hash table of /repo/hashbrown (HashTable<T>) as a bag of     *)
(* elements.  An element is <<id, k, v>>: its identity, its key and a mutable  *)
(* value; u.h[k] is the hash class of key k.  Several elements may share a     *)
(* key, so lookups choose among them: the specification is a relation and the  *)
(* recorded result says which choice was made.                                 *)
(*   st = [a |-> table, b |-> second table, lk |-> leaked instances]           *)
(* A failure plan f = <<kind, <<n>>>> makes the n-th call of one kind of       *)
(* callback fail; `fired' says whether it was reached:                         *)
(*   "eq"    the comparison returns an error       "eqp"  it panics            *)
(*   "hash"  the hash callback panics              "pred" the closure panics   *)
(*   "clone" cloning an element panics             "drop" a destructor panics  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ids(S)      == {x[1] : x \in S}
ById(S, id) == CHOOSE x \in S : x[1] = id
Keyed(S, k) == {x \in S : x[2] = k}
Triples(q)  == {<<q[3*i - 2], q[3*i - 1], q[3*i]>> : i \in 1..(Len(q) \div 3)}
Pairs(q)    == {<<q[2*i - 1], q[2*i]>> : i \in 1..(Len(q) \div 2)}
Range(q)    == {q[i] : i \in DOMAIN q}
Distinct(q) == Cardinality(Range(q)) = Len(q)
Min(x, y)   == IF x < y THEN x ELSE y
Max(x, y)   == IF x > y THEN x ELSE y
If1(c, s)   == IF c THEN {s} ELSE {}
SetVal(S, id, v) == LET x == ById(S, id) IN (S \ {x}) \cup {<<x[1], x[2], v>>}
(* the predicate of retain / extract_if looks at the value and then adds one  *)
BumpAll(S, ids) == {IF x[1] \in ids THEN <<x[1], x[2], x[3] + 1>> ELSE x : x \in S}
Sel(m, r, x) == x[3] % m = r

(* ------------------------------- capacity ---------------------------------- *)
(* The reported capacity leaves out slots spoilt by removals, so cleaning up   *)
(* while shrinking may even raise it.                                          *)
CapOk(n, a, len, c0, c1) ==
  /\ c0 >= 0 /\ c1 >= len
  /\ CASE n = "reserve"       -> c1 >= len + a[1] /\ c1 >= c0
       [] n = "shrink_to_fit" -> c1 <= 4 * len + 16
       [] n = "shrink_to"     -> c1 >= Min(c0, a[1]) /\ c1 <= Max(c0, 4 * Max(len, a[1]) + 16)
       [] OTHER               -> c1 = c0

(* iteration script: kind, steps, stop?  result len0, lenAfter, lenEnd, ids    *)
IterOk(ids, steps, stop, r) ==
  LET seen == SubSeq(r, 5, Len(r))
      n    == Cardinality(ids) IN
  /\ Len(r) >= 4 /\ r[1] = n
  /\ r[2] = n - Min(steps, n) /\ r[4] = 0
  /\ r[3] = (IF stop = 1 THEN r[2] ELSE 0)
  /\ Distinct(seen) /\ Range(seen) \subseteq ids
  /\ Len(seen) = (IF stop = 1 THEN Min(steps, n) ELSE n)

(* a list of single steps: 0,id,k inserts; 1,k,0 removes one element of key k  *)
RECURSIVE BulkRun(_, _, _, _)
BulkRun(S, a, r, j) ==        \* j: next removal result in r
  IF a = <<>> THEN [ok |-> j = Len(r) + 1, s |-> S]
  ELSE LET rest == SubSeq(a, 4, Len(a)) IN
    IF a[1] = 0 THEN BulkRun(S \cup {<<a[2], a[3], 0>>}, rest, r, j)
    ELSE IF j > Len(r) THEN [ok |-> FALSE, s |-> S]
    ELSE LET K == Keyed(S, a[2]) IN
      IF r[j] = 0 THEN (IF K = {} THEN BulkRun(S, rest, r, j + 1) ELSE [ok |-> FALSE, s |-> S])
      ELSE IF r[j] \in Ids(K) THEN BulkRun(S \ {ById(S, r[j])}, rest, r, j + 1)
      ELSE [ok |-> FALSE, s |-> S]

(* --------------------- operations that ran to completion ------------------- *)
Normal(u, st, op, r) ==
  LET n == op[1]  a == op[2]
      A == st.a
      N == Cardinality(A)
      With(S) == [st EXCEPT !.a = S]
      K == Keyed(A, a[1])
      Hit == Len(r) = 2 /\ \E x \in K : x[1] = r[1] /\ x[3] = r[2]
      Miss == K = {} /\ r = <<-1, N>>
      New(id) == <<id, a[1], 0>>
  IN
  CASE n = "insert" -> If1(r = <<a[1]>>, With(A \cup {<<a[1], a[2], 0>>}))
    [] n \in {"find", "fe_get"} -> If1(Hit \/ Miss, st)
    [] n \in {"find_mut", "fe_mut", "fe_into_mut"} ->
         IF K = {} THEN If1(Miss, st) ELSE If1(Hit, With(SetVal(A, r[1], a[2])))
    [] n = "fe_remove" ->
         IF K = {} THEN If1(Miss, st) ELSE If1(Hit, With(A \ {ById(A, r[1])}))
    [] n = "fe_swap" ->      \* remove, then refill the vacated entry
         IF K = {} THEN If1(Miss, st)
         ELSE If1(Hit, With((A \ {ById(A, r[1])}) \cup {New(a[2])}))
    [] n = "fe_remove_len" ->  \* remove, then the table behind the vacant entry
         IF K = {} THEN If1(Miss, st)
         ELSE If1(Len(r) = 3 /\ r[1] \in Ids(K) /\ ById(A, r[1])[3] = r[2] /\ r[3] = N - 1,
                  With(A \ {ById(A, r[1])}))
    [] n \in {"entry_or_insert", "entry_or_insert_with"} ->
         IF K = {} THEN If1(r = <<a[2], 0>>, With(A \cup {New(a[2])})) ELSE If1(Hit, st)
    [] n = "entry_modify" ->   \* and_modify(set value).or_insert(new)
         IF K = {} THEN If1(r = <<a[2], 0>>, With(A \cup {New(a[2])}))
         ELSE If1(Len(r) = 2 /\ r[1] \in Ids(K) /\ r[2] = a[4], With(SetVal(A, r[1], a[4])))
    [] n = "entry_insert" ->
         IF K = {} THEN If1(r = <<0, a[2]>>, With(A \cup {New(a[2])}))
         ELSE If1(Len(r) = 2 /\ r[1] \in Ids(K) /\ r[2] = a[2],
                  With((A \ {ById(A, r[1])}) \cup {New(a[2])}))
    [] n = "entry_remove" ->
         IF K = {} THEN If1(r = <<-1, N>>, st) ELSE If1(Hit, With(A \ {ById(A, r[1])}))
    [] n = "clear" -> If1(r = <<>>, With({}))
    [] n \in {"reserve", "shrink_to_fit", "shrink_to", "capacity"} ->
         If1(Len(r) = 2 /\ CapOk(n, a, N, r[1], r[2]), st)
    [] n = "fill_reserved" ->  \* reserve(n), then n inserts watching the capacity
         If1(/\ Len(r) = a[1] + 1 /\ r[1] >= N + a[1]
             /\ \A i \in 2..Len(r) : r[i] >= r[1],
             With(A \cup {<<a[2] + i - 1, a[2 + i], 0>> : i \in 1..a[1]}))
    [] n = "len" -> If1(r = <<N, IF N = 0 THEN 1 ELSE 0>>, st)
    [] n = "iter" -> If1(IterOk(Ids(A), a[1], a[2], r), st)
    [] n = "iter_mut" ->
         If1(IterOk(Ids(A), a[1], a[2], r), With(BumpAll(A, Range(SubSeq(r, 5, Len(r))))))
    [] n \in {"drain", "into_iter"} -> If1(IterOk(Ids(A), a[1], a[2], r), With({}))
    [] n \in {"iter_hash", "iter_hash_mut"} ->   \* mut: sets the value of equal keys
         If1(/\ Distinct(r) /\ Range(r) \subseteq Ids(A)
             /\ {x[1] : x \in {y \in A : u.h[y[2]] = u.h[a[1]]}} \subseteq Range(r),
             IF n = "iter_hash" THEN st
             ELSE With({IF x[2] = a[1] THEN <<x[1], x[2], a[2]>> ELSE x : x \in A}))
    [] n = "retain" ->
         If1(Distinct(r) /\ Range(r) = Ids(A), With({<<x[1], x[2], x[3] + 1>> : x \in {y \in A : ~Sel(a[1], a[2], y)}}))
    [] n = "extract_if" ->     \* take at most a[3], then drop the iterator
         LET nv == r[1]
             vis == SubSeq(r, 2, nv + 1)
             out == SubSeq(r, nv + 2, Len(r))
             hit == SelectSeq(vis, LAMBDA id : Sel(a[1], a[2], ById(A, id)))
         IN If1(/\ Len(r) > nv /\ Distinct(vis) /\ Range(vis) \subseteq Ids(A)
                /\ out = hit /\ Len(out) <= a[3]
                /\ \/ Range(vis) = Ids(A)
                   \/ Len(out) = a[3] /\ (vis = <<>> \/ vis[Len(vis)] = out[Len(out)])
                /\ (a[3] = 0 => vis = <<>>),
                With(BumpAll({x \in A : x[1] \notin Range(out)}, Range(vis))))
    [] n \in {"clone", "clone_from"} -> If1(r = <<>>, [st EXCEPT !.b = A])
    [] n = "swap" -> If1(r = <<>>, [st EXCEPT !.a = st.b, !.b = A])
    [] n = "renew" -> If1(Len(r) = 1 /\ r[1] >= a[1], With({}))
    [] n = "bulk" -> LET o == BulkRun(A, a, r, 1) IN If1(o.ok, With(o.s))
    [] OTHER -> {}

(* -------------------------- a callback failed ------------------------------ *)
Removing == {"fe_remove", "fe_remove_len", "entry_remove", "fe_swap", "entry_insert"}
Failed(u, st, op, f, res, o) ==
  LET n == op[1]  a == op[2]
      A == st.a
      P == Triples(o.a)
      PB == Triples(o.b)
      With(S) == [st EXCEPT !.a = S]
      Visited(k) ==      \* after the first k calls of the predicate
        LET vis == Range(SubSeq(res[2], 1, k)) IN
        BumpAll({x \in A : ~(x[1] \in vis /\ Sel(a[1], a[2], x))}, vis)
      leak == {p[1] : p \in Pairs(o.x)}
      Leaky(S) == [S EXCEPT !.lk = Pairs(o.x)]
  IN
  IF o.q # 1 THEN {}
  ELSE CASE f[1] = "eq" -> If1(res = <<"err", <<77>>>>, st)
    [] res[1] # "panic" -> {}
    [] f[1] = "eqp" -> {st}
    [] f[1] = "clone" -> {st}
    [] f[1] = "hash" ->   \* an in-place rehash may give up elements, nothing else may
         If1(P \subseteq A /\ (n \in {"shrink_to", "shrink_to_fit"} => P = A), With(P))
    [] f[1] = "pred" ->
         IF n \in {"retain", "extract_if"}
         THEN If1(Distinct(res[2]) /\ Range(res[2]) \subseteq Ids(A) /\ Len(res[2]) >= 1,
                  With(Visited(Len(res[2]) - 1)))
         ELSE {st}
    [] f[1] = "drop" ->
         CASE n = "retain" -> If1(Distinct(res[2]) /\ Range(res[2]) \subseteq Ids(A), With(Visited(Len(res[2]))))
           [] n \in {"clear", "drain", "into_iter", "renew"} ->
                If1(leak \subseteq Ids(A) \cup {p[1] : p \in st.lk}, Leaky(With({})))
           [] n \in {"clone", "clone_from"} ->   \* the old second table was being destroyed
                {Leaky([st EXCEPT !.b = A])} \cup {Leaky([st EXCEPT !.b = {}])}
           [] n = "extract_if" ->
                If1(Distinct(res[2]) /\ Range(res[2]) \subseteq Ids(A), Leaky(With(Visited(Len(res[2])))))
           [] OTHER -> {}
    [] OTHER -> {}

(* result and observation together; the set of states that explain them       *)
HStep(u, st, op, f, fired, res, o) ==
  IF fired = 1 THEN Failed(u, st, op, f, res, o)
  ELSE IF res[1] # "ok" THEN {}
  ELSE Normal(u, st, op, res[2])

HObsOk(u, st, o) ==
  /\ o.n = Cardinality(st.a) /\ o.m = Cardinality(st.b)
  /\ o.d = 0 /\ Pairs(o.x) = st.lk
  /\ o.q = 1 =>
       /\ Triples(o.a) = st.a /\ Len(o.a) = 3 * o.n
       /\ Triples(o.b) = st.b /\ Len(o.b) = 3 * o.m
       /\ \A k \in DOMAIN u.h : LET K == Ids(Keyed(st.a, k)) IN
            IF K = {} THEN o.l[k] = 0 ELSE o.l[k] \in K
HInit == [a |-> {}, b |-> {}, lk |-> {}]
==============================================================================
