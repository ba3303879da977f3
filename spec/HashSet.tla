------------------------------- MODULE HashSet -------------------------------
(* The unordered hash set of /repo/hashbrown (HashSet<T>): a set of key        *)
(* objects with at most one per class.                                         *)
(*   st = [a |-> set of key objects, b |-> second set, lk |-> leaked objects]   *)
EXTENDS HashMap

SSame(u, S, k) == {x \in S : u.c[x] = u.c[k]}
SHas(u, S, k)  == SSame(u, S, k) # {}
The(u, S, k)   == CHOOSE x \in SSame(u, S, k) : TRUE
Add(u, S, k)   == IF SHas(u, S, k) THEN S ELSE S \cup {k}
Cls(u, S)      == {u.c[x] : x \in S}
RECURSIVE AddAll(_, _, _)
AddAll(u, S, q) == IF q = <<>> THEN S ELSE AddAll(u, Add(u, S, q[1]), Tail(q))
B(c) == IF c THEN 1 ELSE 0
SIterOk(S, steps, stop, r) == IterOk(S, steps, stop, r)

SNormal(u, st, op, r) ==
  LET n == op[1]  a == op[2]
      A == st.a
      N == Cardinality(A)
      With(S) == [st EXCEPT !.a = S]
      k == a[1]
      has == SHas(u, A, k)
      it == The(u, A, k)
      Gone == A \ SSame(u, A, k)
      Opt(x) == r = (IF has THEN <<x>> ELSE <<>>)
  IN
  CASE n = "insert" -> If1(r = <<B(~has)>>, With(Add(u, A, k)))
    [] n = "insert_unique" -> If1(~has /\ r = <<k>>, With(A \cup {k}))
    [] n = "contains" -> If1(r = <<B(has)>>, st)
    [] n = "get" -> If1(Opt(it), st)
    [] n = "get_or_insert" -> If1(r = <<IF has THEN it ELSE k>>, With(Add(u, A, k)))
    [] n = "get_or_insert_with" ->
         IF has THEN If1(r = <<it>>, st)
         ELSE If1(u.c[a[2]] = u.c[k] /\ r = <<a[2]>>, With(A \cup {a[2]}))
    [] n = "replace" -> If1(Opt(it), With(Gone \cup {k}))
    [] n = "remove" -> If1(r = <<B(has)>>, With(Gone))
    [] n = "take" -> If1(Opt(it), With(Gone))
    [] n = "e_insert" -> If1(r = <<IF has THEN it ELSE k>>, With(Add(u, A, k)))
    [] n = "e_or_insert" -> If1(r = <<>>, With(Add(u, A, k)))
    [] n = "e_get" -> If1(r = <<IF has THEN it ELSE k>>, st)
    [] n = "e_remove" -> If1(r = (IF has THEN <<it, it>> ELSE <<>>), With(Gone))
    [] n = "e_into_value" -> If1(r = (IF has THEN <<>> ELSE <<k, k>>), st)
    [] n = "e_vacant_insert" -> If1(r = (IF has THEN <<>> ELSE <<k>>), With(Add(u, A, k)))
    [] n = "relations" ->
         LET X == Cls(u, A)  Y == Cls(u, st.b) IN
         If1(r = <<B(X \subseteq Y), B(Y \subseteq X), B(X = Y), B(Y \subseteq X), B(X \subseteq Y)>>, st)
    [] n = "extend" -> If1(r = <<>>, With(AddAll(u, A, a)))
    [] n = "from_iter" -> If1(r = <<>>, [st EXCEPT !.b = AddAll(u, {}, a)])
    [] n = "from_ary" -> If1(Distinct(r) /\ Range(r) = AddAll(u, {}, a), st)
    [] n = "clear" -> If1(r = <<>>, With({}))
    [] n \in {"clone", "clone_from"} -> If1(r = <<>>, [st EXCEPT !.b = A])
    [] n = "swap" -> If1(r = <<>>, [st EXCEPT !.a = st.b, !.b = A])
    [] n = "renew" -> If1(Len(r) = 1 /\ r[1] >= a[1], With({}))
    [] n \in {"reserve", "shrink_to_fit", "shrink_to", "capacity"} ->
         If1(Len(r) = 2 /\ CapOk(n, a, N, r[1], r[2]), st)
    [] n = "len" -> If1(r = <<N, B(N = 0)>>, st)
    [] n = "iter" -> If1(IterOk(A, a[1], a[2], r), st)
    [] n \in {"drain", "into_iter"} -> If1(IterOk(A, a[1], a[2], r), With({}))
    [] n = "retain" -> If1(Distinct(r) /\ Range(r) = A, With({x \in A : x % a[1] # a[2]}))
    [] n = "extract_if" ->
         LET nv == r[1]
             vis == SubSeq(r, 2, nv + 1)
             out == SubSeq(r, nv + 2, Len(r))
         IN If1(/\ Len(r) > nv /\ Distinct(vis) /\ Range(vis) \subseteq A
                /\ out = SelectSeq(vis, LAMBDA x : x % a[1] = a[2]) /\ Len(out) <= a[3]
                /\ \/ Range(vis) = A
                   \/ Len(out) = a[3] /\ (vis = <<>> \/ vis[Len(vis)] = out[Len(out)])
                /\ (a[3] = 0 => vis = <<>>),
                With(A \ Range(out)))
    [] OTHER -> {}

SPrefixes(u, S, q) == {AddAll(u, S, SubSeq(q, 1, i)) : i \in 0..Len(q)}
SFailed(u, st, op, f, res, o) ==
  LET n == op[1]  a == op[2]
      A == st.a
      P == Range(o.a)
      With(S) == [st EXCEPT !.a = S]
      Visited(k) == A \ {x \in Range(SubSeq(res[2], 1, k)) : x % a[1] = a[2]}
      Seen == Distinct(res[2]) /\ Range(res[2]) \subseteq A
      Leaky(S) == [S EXCEPT !.lk = Pairs(o.x)]
  IN
  IF o.q # 1 THEN {}
  ELSE CASE f[1] = "eq" ->
         IF res # <<"err", <<77>>>> THEN {}
         ELSE IF n = "extend" THEN {With(S) : S \in SPrefixes(u, A, a)} ELSE {st}
    [] res[1] # "panic" -> {}
    [] f[1] = "eqp" -> IF n = "extend" THEN {With(S) : S \in SPrefixes(u, A, a)} ELSE {st}
    [] f[1] = "clone" -> IF n = "clone_from" THEN {[st EXCEPT !.b = {}]} ELSE {st}
    [] f[1] = "hash" ->
         IF n = "extend" THEN If1(\E S \in SPrefixes(u, A, a) : P \subseteq S, With(P))
         ELSE IF n \in {"from_iter", "relations", "shrink_to", "shrink_to_fit", "get", "remove", "contains"} THEN {st}
         ELSE If1(P \subseteq A, With(P))
    [] f[1] = "pred" ->
         IF n \in {"retain", "extract_if"} THEN If1(Seen /\ Len(res[2]) >= 1, With(Visited(Len(res[2]) - 1)))
         ELSE {st}
    [] f[1] = "drop" ->
         CASE n \in {"retain", "extract_if"} -> If1(Seen, Leaky(With(Visited(Len(res[2])))))
           [] n \in {"clear", "drain", "into_iter", "renew"} -> {Leaky(With({}))}
           [] n = "clone" -> {Leaky([st EXCEPT !.b = A]), Leaky([st EXCEPT !.b = {}])}
           [] n = "clone_from" -> {Leaky([st EXCEPT !.b = {}])}
           [] OTHER -> {}
    [] OTHER -> {}

SStep(u, st, op, f, fired, res, o) ==
  IF fired = 1
  THEN {s \in SFailed(u, st, op, f, res, o) : LeakOk(st.lk, s.lk, st.a \cup st.b)}
  (* offering an object that is not equal is refused and changes nothing       *)
  ELSE IF res[1] = "panic"
  THEN If1(op[1] = "get_or_insert_with" /\ ~SHas(u, st.a, op[2][1]) /\ u.c[op[2][1]] # u.c[op[2][2]], st)
  ELSE IF res[1] # "ok" THEN {} ELSE SNormal(u, st, op, res[2])

SObsOk(u, st, o) ==
  /\ o.n = Cardinality(st.a) /\ o.m = Cardinality(st.b)
  /\ o.d = 0 /\ Pairs(o.x) = st.lk
  /\ o.q = 1 =>
       /\ Range(o.a) = st.a /\ Len(o.a) = o.n
       /\ Range(o.b) = st.b /\ Len(o.b) = o.m
       /\ \A k \in DOMAIN u.c : o.l[k] = IF SHas(u, st.a, k) THEN The(u, st.a, k) ELSE 0
SInit == [a |-> {}, b |-> {}, lk |-> {}]
==============================================================================
