------------------------------- MODULE HashMap -------------------------------
(* The unordered hash map of /repo/hashbrown (HashMap<K,V>) as a finite map.   *)
(* Key objects are 1..n with class u.c and hash class u.h; an entry is         *)
(* <<key object, value>>, at most one per class.  Order is unspecified: any    *)
(* iteration order is accepted, the recorded one resolves it.                  *)
(*   st = [a |-> entries, b |-> second map, lk, lv |-> leaked keys / values]    *)
(* Failure plans and `fired' as in HashTable.                                  *)
EXTENDS HashTable

Same(u, S, k)  == {x \in S : u.c[x[1]] = u.c[k]}
Entry(u, S, k) == CHOOSE x \in Same(u, S, k) : TRUE
Has(u, S, k)   == Same(u, S, k) # {}
PutVal(u, S, k, v) ==      \* keeps the stored key object
  IF Has(u, S, k) THEN LET x == Entry(u, S, k) IN (S \ {x}) \cup {<<x[1], v>>}
  ELSE S \cup {<<k, v>>}
Del(u, S, k) == S \ Same(u, S, k)
RECURSIVE PutAll(_, _, _)
PutAll(u, S, q) ==         \* q: flat list of key, value
  IF Len(q) < 2 THEN S ELSE PutAll(u, PutVal(u, S, q[1], q[2]), SubSeq(q, 3, Len(q)))
EqualMaps(u, S, T) ==
  /\ Cardinality(S) = Cardinality(T)
  /\ \A x \in S : Has(u, T, x[1]) /\ Entry(u, T, x[1])[2] = x[2]
OneEach(u, S) == \A x, y \in S : u.c[x[1]] = u.c[y[1]] => x = y
Flat(S) == {<<x[1], x[2]>> : x \in S}
MBump(S, ks) == {IF x[1] \in ks THEN <<x[1], x[2] + 1>> ELSE x : x \in S}
MSel(m, r, x) == x[2] % m = r
(* iteration: what = keys, values or both decides what the recorded list holds *)
PairSeq(q) == [i \in 1..(Len(q) \div 2) |-> <<q[2*i - 1], q[2*i]>>]
KeysIn(q)  == {q[2*i - 1] : i \in 1..(Len(q) \div 2)}
MIterOk(S, what, steps, stop, r) ==
  LET list == SubSeq(r, 5, Len(r))
      n == Cardinality(S)
      w == IF stop = 1 THEN Min(steps, n) ELSE n
  IN
  /\ Len(r) >= 4 /\ r[1] = n /\ r[2] = n - Min(steps, n) /\ r[4] = 0
  /\ r[3] = (IF stop = 1 THEN r[2] ELSE 0)
  /\ CASE what = "both" -> Len(list) = 2 * w /\ Distinct(PairSeq(list)) /\ Range(PairSeq(list)) \subseteq S
       [] what = "keys" -> Len(list) = w /\ Distinct(list) /\ Range(list) \subseteq {x[1] : x \in S}
       [] what = "values" ->
            /\ Len(list) = w
            /\ \A v \in Range(list) : Cardinality({i \in DOMAIN list : list[i] = v})
                                       <= Cardinality({x \in S : x[2] = v})

(* results with one optional entry: <<>> for none                              *)
MNormal(u, st, op, r) ==
  LET n == op[1]  a == op[2]
      A == st.a
      N == Cardinality(A)
      With(S) == [st EXCEPT !.a = S]
      k == a[1]
      has == Has(u, A, k)
      ent == Entry(u, A, k)
      Kept == IF has THEN ent[1] ELSE k        \* the key object stored afterwards
      Old(x) == r = (IF has THEN x ELSE <<>>)
  IN
  CASE n = "insert" -> If1(r = (IF has THEN <<ent[2]>> ELSE <<>>), With(PutVal(u, A, k, a[2])))
    [] n = "insert_unique" -> If1(~has /\ r = <<k, a[2]>>, With(A \cup {<<k, a[2]>>}))
    [] n = "try_insert" ->
         IF has THEN If1(r = <<1, ent[1], ent[2], a[2]>>, st)
         ELSE If1(r = <<0, a[2]>>, With(A \cup {<<k, a[2]>>}))
    [] n = "get" -> If1(r = (IF has THEN <<ent[2]>> ELSE <<>>), st)
    [] n = "contains_key" -> If1(r = <<IF has THEN 1 ELSE 0>>, st)
    [] n = "get_key_value" -> If1(r = (IF has THEN ent ELSE <<>>), st)
    [] n \in {"get_mut", "get_key_value_mut"} ->
         If1(r = (IF ~has THEN <<>> ELSE IF n = "get_mut" THEN <<ent[2]>> ELSE ent),
             IF has THEN With(PutVal(u, A, k, a[2])) ELSE st)
    [] n = "remove" -> If1(r = (IF has THEN <<ent[2]>> ELSE <<>>), With(Del(u, A, k)))
    [] n = "remove_entry" -> If1(r = (IF has THEN ent ELSE <<>>), With(Del(u, A, k)))
    (* ---- entry handles; the trailing argument picks entry or entry_ref ---- *)
    [] n = "e_insert" -> If1(r = <<Kept, a[2]>>, With(PutVal(u, A, k, a[2])))
    [] n \in {"e_or_insert", "e_or_insert_with"} ->
         If1(r = <<IF has THEN ent[2] ELSE a[2]>>, IF has THEN st ELSE With(A \cup {<<k, a[2]>>}))
    [] n = "e_or_insert_with_key" ->           \* the closure sees the new key
         If1(r = (IF has THEN <<ent[2], 0>> ELSE <<a[2], k>>), IF has THEN st ELSE With(A \cup {<<k, a[2]>>}))
    [] n = "e_or_default" ->
         If1(r = <<IF has THEN ent[2] ELSE 0>>, IF has THEN st ELSE With(A \cup {<<k, 0>>}))
    [] n = "e_key" -> If1(r = <<IF a[2] = 1 THEN k ELSE Kept>>, st)
    [] n = "e_and_modify" ->
         If1(r = <<IF has THEN a[3] ELSE a[2]>>, With(PutVal(u, A, k, IF has THEN a[3] ELSE a[2])))
    [] n = "e_replace_some" ->                 \* and_replace_entry_with(.. Some)
         If1(r = (IF has THEN <<ent[1], ent[2], 1, ent[1]>> ELSE <<0, 0, 0, k>>),
             IF has THEN With(PutVal(u, A, k, a[2])) ELSE st)
    [] n = "e_replace_none" ->
         If1(r = (IF has THEN <<ent[1], ent[2], 0, ent[1]>> ELSE <<0, 0, 0, k>>), With(Del(u, A, k)))
    [] n = "e_replace_refill" ->               \* .. None, then insert through the vacant handle
         If1(r = (IF has THEN <<ent[1], ent[2], 0, ent[1]>> ELSE <<0, 0, 0, k>>), With(PutVal(u, A, k, a[2])))
    [] n = "e_remove" -> If1(Old(<<ent[2]>>), With(Del(u, A, k)))
    [] n = "e_remove_entry" -> If1(Old(ent), With(Del(u, A, k)))
    [] n = "e_set" -> If1(Old(<<ent[2]>>), IF has THEN With(PutVal(u, A, k, a[2])) ELSE st)
    [] n = "e_get_mut" -> If1(Old(<<ent[2]>>), IF has THEN With(PutVal(u, A, k, a[2])) ELSE st)
    [] n = "e_into_mut" -> If1(Old(<<ent[2]>>), IF has THEN With(PutVal(u, A, k, a[2])) ELSE st)
    [] n = "e_into_key" -> If1(r = (IF has THEN <<>> ELSE <<k>>), st)
    [] n = "e_insert_entry" -> If1(r = (IF has THEN <<>> ELSE <<k, a[2]>>),
                                   IF has THEN st ELSE With(A \cup {<<k, a[2]>>}))
    (* ---- bulk ---- *)
    [] n = "extend" -> If1(r = <<>>, With(PutAll(u, A, a)))
    [] n = "from_iter" -> If1(r = <<>>, [st EXCEPT !.b = PutAll(u, {}, a)])
    [] n = "from_ary" -> If1(Len(r) = 2 * Cardinality(PutAll(u, {}, a))
                             /\ Range(PairSeq(r)) = PutAll(u, {}, a), st)
    [] n = "clear" -> If1(r = <<>>, With({}))
    [] n \in {"clone", "clone_from"} -> If1(r = <<>>, [st EXCEPT !.b = A])
    [] n = "swap" -> If1(r = <<>>, [st EXCEPT !.a = st.b, !.b = A])
    [] n = "renew" -> If1(Len(r) = 1 /\ r[1] >= a[1], With({}))
    [] n = "eql" -> If1(r = <<IF EqualMaps(u, A, st.b) THEN 1 ELSE 0>>, st)
    [] n \in {"reserve", "shrink_to_fit", "shrink_to", "capacity"} ->
         If1(Len(r) = 2 /\ CapOk(n, a, N, r[1], r[2]), st)
    [] n = "len" -> If1(r = <<N, IF N = 0 THEN 1 ELSE 0>>, st)
    [] n = "iter" -> If1(MIterOk(A, "both", a[1], a[2], r), st)
    [] n = "keys" -> If1(MIterOk(A, "keys", a[1], a[2], r), st)
    [] n = "values" -> If1(MIterOk(A, "values", a[1], a[2], r), st)
    [] n = "values_mut" ->   \* adds one to each value it yields; always run to the end
         If1(a[2] # 1 /\ MIterOk(A, "values", a[1], a[2], r), With(MBump(A, {x[1] : x \in A})))
    [] n = "iter_mut" ->     \* adds one to each value it yields
         If1(MIterOk(A, "both", a[1], a[2], r), With(MBump(A, KeysIn(SubSeq(r, 5, Len(r))))))
    [] n \in {"drain", "into_iter"} -> If1(MIterOk(A, "both", a[1], a[2], r), With({}))
    [] n = "into_keys" -> If1(MIterOk(A, "keys", a[1], a[2], r), With({}))
    [] n = "into_values" -> If1(MIterOk(A, "values", a[1], a[2], r), With({}))
    [] n = "retain" ->
         If1(Distinct(r) /\ Range(r) = {x[1] : x \in A},
             With({<<x[1], x[2] + 1>> : x \in {y \in A : ~MSel(a[1], a[2], y)}}))
    [] n = "extract_if" ->
         LET nv == r[1]
             vis == SubSeq(r, 2, nv + 1)
             out == PairSeq(SubSeq(r, nv + 2, Len(r)))
             At(q) == CHOOSE x \in A : x[1] = q
             hit == SelectSeq(vis, LAMBDA q : MSel(a[1], a[2], At(q)))
         IN If1(/\ Len(r) > nv /\ Distinct(vis) /\ Range(vis) \subseteq {x[1] : x \in A}
                /\ Len(out) = Len(hit) /\ Len(out) <= a[3]
                /\ \A i \in DOMAIN hit : out[i] = <<hit[i], At(hit[i])[2] + 1>>
                /\ \/ Range(vis) = {x[1] : x \in A}
                   \/ Len(out) = a[3] /\ (vis = <<>> \/ vis[Len(vis)] = hit[Len(hit)])
                /\ (a[3] = 0 => vis = <<>>),
                With(MBump({x \in A : x[1] \notin Range(hit)}, Range(vis))))
    [] OTHER -> {}

(* the states a bulk insertion passes through                                  *)
Prefixes(u, S, q) == {PutAll(u, S, SubSeq(q, 1, 2*i)) : i \in 0..(Len(q) \div 2)}

MFailed(u, st, op, f, res, o) ==
  LET n == op[1]  a == op[2]
      A == st.a
      P == Pairs(o.a)
      PB == Pairs(o.b)
      With(S) == [st EXCEPT !.a = S]
      Visited(k) == LET vis == Range(SubSeq(res[2], 1, k)) IN
        MBump({x \in A : ~(x[1] \in vis /\ MSel(a[1], a[2], x))}, vis)
      Seen == Distinct(res[2]) /\ Range(res[2]) \subseteq {x[1] : x \in A}
      Leaky(S) == [S EXCEPT !.lk = Pairs(o.x), !.lv = Pairs(o.y)]
  IN
  IF o.q # 1 THEN {}
  ELSE CASE f[1] = "eq" ->
         IF res # <<"err", <<77>>>> THEN {}
         ELSE IF n = "extend" THEN {With(S) : S \in Prefixes(u, A, a)} ELSE {st}
    [] res[1] # "panic" -> {}
    [] f[1] = "eqp" -> IF n = "extend" THEN {With(S) : S \in Prefixes(u, A, a)} ELSE {st}
    [] f[1] = "clone" -> IF n = "clone_from" THEN {[st EXCEPT !.b = {}]} ELSE {st}
    [] f[1] = "hash" ->
         IF n = "extend" THEN If1(\E S \in Prefixes(u, A, a) : P \subseteq S, With(P))
         ELSE IF n = "from_iter" \/ n = "eql" THEN {st}
         ELSE If1(P \subseteq A /\ (n \in {"shrink_to", "shrink_to_fit", "get", "remove", "contains_key"} => P = A), With(P))
    [] f[1] = "pred" ->
         IF n \in {"retain", "extract_if"}
         THEN If1(Seen /\ Len(res[2]) >= 1, With(Visited(Len(res[2]) - 1)))
         ELSE IF n \in {"e_replace_some", "e_replace_none"}
         THEN {With(Del(u, A, a[1]))}           \* the closure owned the value
         ELSE {st}
    [] f[1] = "drop" ->
         CASE n \in {"retain", "extract_if"} -> If1(Seen, Leaky(With(Visited(Len(res[2])))))
           [] n \in {"clear", "drain", "into_iter", "into_keys", "into_values", "renew"} -> {Leaky(With({}))}
           [] n = "clone" -> {Leaky([st EXCEPT !.b = A]), Leaky([st EXCEPT !.b = {}])}
           [] n = "clone_from" -> {Leaky([st EXCEPT !.b = {}])}
           [] OTHER -> {}
    [] OTHER -> {}
(* only what the maps held may leak, and only through a failing destructor     *)
LeakOk(old, new, S) ==
  {p[1] : p \in new} \subseteq {p[1] : p \in old} \cup S /\ \A p \in new : p[2] > 0

MStep(u, st, op, f, fired, res, o) ==
  IF fired = 1
  THEN {s \in MFailed(u, st, op, f, res, o) :
          LeakOk(st.lk, s.lk, {x[1] : x \in st.a \cup st.b})
          /\ \A p \in s.lv : p[2] > 0}
  ELSE IF res[1] # "ok" THEN {} ELSE MNormal(u, st, op, res[2])

MObsOk(u, st, o) ==
  /\ o.n = Cardinality(st.a) /\ o.m = Cardinality(st.b)
  /\ o.d = 0 /\ Pairs(o.x) = st.lk /\ Pairs(o.y) = st.lv
  /\ o.q = 1 =>
       /\ Pairs(o.a) = st.a /\ Len(o.a) = 2 * o.n
       /\ Pairs(o.b) = st.b /\ Len(o.b) = 2 * o.m
       /\ \A k \in DOMAIN u.c :
            o.l[k] = IF Has(u, st.a, k) THEN Entry(u, st.a, k)[1] ELSE 0
MInit == [a |-> {}, b |-> {}, lk |-> {}, lv |-> {}]
==============================================================================
