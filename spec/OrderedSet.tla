----------------------------- MODULE OrderedSet -----------------------------
(***************************************************************************)
(* The insertion-ordered set of /repo/rubymap (RubySet).  A set is the key *)
(* half of an ordered map: its state is a pair of OrderedMap association   *)
(* lists whose values are all 0, and most operations are defined as the    *)
(* map operation with the answer projected to the key (`ViaMap').          *)
(* Element objects, universe, failure plans: as in OrderedMap.             *)
(***************************************************************************)
EXTENDS OrderedMap

Elems(s)      == KeysOf(s)
Zip0(ks)      == [i \in 1..Len(ks) |-> <<ks[i], 0>>]
Evens(s)      == [i \in 1..(Len(s) \div 2) |-> s[2 * i - 1]]
(* stable order by class modulo m, and by class modulo m then class *)
SetSortBy(u, s, m) ==
  SortIdx(s, LAMBDA x, y : \/ u.c[s[x][1]] % m < u.c[s[y][1]] % m
                           \/ u.c[s[x][1]] % m = u.c[s[y][1]] % m /\ x < y)
SetSortByThen(u, s, m) ==
  SortIdx(s, LAMBDA x, y : \/ u.c[s[x][1]] % m < u.c[s[y][1]] % m
                           \/ u.c[s[x][1]] % m = u.c[s[y][1]] % m /\ u.c[s[x][1]] < u.c[s[y][1]])
SubsetOf(u, x, y)  == \A i \in DOMAIN x : Pos(u, y, x[i][1]) # 0
DisjointOf(u, x, y) == \A i \in DOMAIN x : Pos(u, y, x[i][1]) = 0

SApply(u, st, op) ==
  LET n == op[1]
      a == op[2]
      A == st.a
      SetA(x) == [st EXCEPT !.a = x]
      same(r) == <<st, Ok(r)>>
      refuse  == <<st, Panic>>
      \* the map operation m with arguments x; F maps its integers to the set's answer
      ViaMap(m, x, F(_)) == LET r == Apply(u, st, <<m, x>>) IN
                            IF r[2] = Panic THEN r ELSE <<r[1], Ok(F(r[2][2]))>>
      Fresh(r)   == <<B(r = <<>>)>>                \* nothing was displaced
      Found(r)   == <<B(r # <<>>)>>
      Key(r)     == IF r = <<>> THEN <<>> ELSE <<r[1]>>
      IdxFresh(r) == <<r[1], B(Len(r) = 1)>>
      IdxKey(r)  == IF r = <<>> THEN <<>> ELSE <<r[1], r[2]>>
      Id(r)      == r
      p  == Pos(u, A, a[1])
      i1 == a[1] + 1
      rel(x, y) == <<B(SubsetOf(u, x, y)), B(SubsetOf(u, y, x)), B(DisjointOf(u, x, y))>>
  IN
  CASE
     n = "contains"       -> ViaMap("contains", a, Id)
  [] n = "get"            -> ViaMap("get_key_value", a, Key)
  [] n = "get_full"       -> ViaMap("get_full", a, IdxKey)
  [] n = "get_index_of"   -> ViaMap("get_index_of", a, Id)
  [] n = "get_index"      -> ViaMap("get_index", a, Key)
  [] n = "index"          -> IF i1 \in 1..Len(A) THEN same(<<A[i1][1]>>) ELSE refuse
  [] n = "first"          -> ViaMap("first", a, Key)
  [] n = "last"           -> ViaMap("last", a, Key)
  [] n = "len"            -> ViaMap("len", a, Id)
  [] n = "get_range"      -> same(IF a[1] <= a[2] /\ a[2] <= Len(A)
                                  THEN <<1>> \o Elems(SubSeq(A, a[1] + 1, a[2])) ELSE <<0>>)
  [] n = "insert"         -> ViaMap("insert", <<a[1], 0>>, Fresh)
  [] n = "insert_full"    -> ViaMap("insert_full", <<a[1], 0>>, IdxFresh)
  [] n = "insert_sorted"  -> ViaMap("insert_sorted", <<a[1], 0>>, IdxFresh)
  [] n = "insert_before"  -> ViaMap("insert_before", <<a[1], a[2], 0>>, IdxFresh)
  [] n = "shift_insert"   -> ViaMap("shift_insert", <<a[1], a[2], 0>>, Fresh)
     (* replace: the new object takes the place of the equal one              *)
  [] n = "replace"        -> IF p = 0 THEN <<SetA(Append(A, <<a[1], 0>>)), Ok(<<>>)>>
                             ELSE <<SetA([A EXCEPT ![p][1] = a[1]]), Ok(<<A[p][1]>>)>>
  [] n = "replace_full"   -> IF p = 0 THEN <<SetA(Append(A, <<a[1], 0>>)), Ok(<<Len(A)>>)>>
                             ELSE <<SetA([A EXCEPT ![p][1] = a[1]]), Ok(<<p - 1, A[p][1]>>)>>
  [] n = "swap_remove"    -> ViaMap("swap_remove", a, Found)
  [] n = "shift_remove"   -> ViaMap("shift_remove", a, Found)
  [] n = "swap_take"      -> ViaMap("swap_remove_entry", a, Key)
  [] n = "shift_take"     -> ViaMap("shift_remove_entry", a, Key)
  [] n = "swap_remove_full"   -> ViaMap("swap_remove_full", a, IdxKey)
  [] n = "shift_remove_full"  -> ViaMap("shift_remove_full", a, IdxKey)
  [] n = "swap_remove_index"  -> ViaMap("swap_remove_index", a, Key)
  [] n = "shift_remove_index" -> ViaMap("shift_remove_index", a, Key)
  [] n = "pop"            -> ViaMap("pop", a, Key)
  [] n \in {"clear", "truncate", "split_off", "append", "reverse", "swap", "clone", "clone_from",
            "move_index"} -> ViaMap(n, a, Id)
  [] n \in {"sort", "sort_unstable"} -> ViaMap("sort_keys", a, Id)
  [] n \in {"sort_by", "sort_by_cached_key"} -> <<SetA(SetSortBy(u, A, a[1])), Ok(<<>>)>>
  [] n = "sort_unstable_by"   -> <<SetA(SetSortByThen(u, A, a[1])), Ok(<<>>)>>
  [] n = "sorted_by"      -> same(Elems(SetSortBy(u, A, a[1])))
  [] n = "sorted_unstable_by" -> same(Elems(SetSortByThen(u, A, a[1])))
     (* retain m r : keep class % m # r; the visited elements are reported     *)
  [] n = "retain"         -> <<SetA(SelectSeq(A, LAMBDA e : u.c[e[1]] % a[1] # a[2])), Ok(Elems(A))>>
  [] n = "drain"          -> IF a[1] > a[2] \/ a[2] > Len(A) THEN refuse
                             ELSE LET W == Elems(SubSeq(A, a[1] + 1, a[2]))
                                      f == Min2(a[3], Len(W))
                                      g == Min2(a[4], Len(W) - f)
                                  IN <<SetA(SubSeq(A, 1, a[1]) \o SubSeq(A, a[2] + 1, Len(A))),
                                       Ok(<<Len(W)>> \o SubSeq(W, 1, f)
                                          \o Rev(SubSeq(W, Len(W) - g + 1, Len(W)))
                                          \o <<Len(W) - f - g>>)>>
  [] n = "extend"         -> <<SetA(PutAll(u, A, Zip0(a))), Ok(<<>>)>>
  [] n \in {"from_iter", "from_ary"} -> <<SetA(PutAll(u, <<>>, Zip0(a))), Ok(<<>>)>>
  [] n \in {"binary_search", "binary_search_by", "binary_search_by_key"} ->
                             ViaMap("binary_search_keys", a, Id)
  [] n = "partition_point" -> ViaMap("partition_point", a, Id)
  [] n = "eql"            -> LET r == B(Len(A) = Len(st.b) /\ SubsetOf(u, A, st.b)) IN same(<<r, r>>)
  [] n = "relations"      -> same(rel(A, st.b) \o rel(st.b, A))
     (* kinds: 0 iter, 1 into_iter, 2 slice iter, 3 boxed slice, 4 drain of a copy *)
  [] n = "iter"           -> same(IterRun(A, 1, Len(A), SubSeq(a, 2, Len(a)), 1))
  [] n = "slice"          ->
       IF a[1] > a[2] \/ a[2] > Len(A) THEN same(<<0>>)
       ELSE LET W == Elems(SubSeq(A, a[1] + 1, a[2]))
                L == Len(W)
                m == Min2(a[3], L)
                el(i) == IF i \in 1..L THEN <<W[i]>> ELSE <<>>
            IN same(<<1, L, B(L = 0)>> \o el(1) \o el(L) \o el(a[3] + 1)
                    \o SubSeq(W, 1, m) \o <<-2>> \o SubSeq(W, m + 1, L) \o <<-2>>
                    \o el(1) \o SubSeq(W, 2, L) \o <<-2>> \o el(L) \o SubSeq(W, 1, L - 1))
  [] n \in CapacityOps    -> IF n = "with_capacity" THEN <<SetA(<<>>), Ok(<<>>)>> ELSE same(<<>>)

SKeyPos(n) ==
  IF n \in {"insert_before", "shift_insert"} THEN 2
  ELSE IF n \in {"contains", "get", "get_full", "get_index_of", "insert", "insert_full", "replace",
                 "replace_full", "swap_remove", "shift_remove", "swap_take", "shift_take",
                 "swap_remove_full", "shift_remove_full"} THEN 1
  ELSE 0
SInserts == {"insert", "insert_full", "insert_before", "shift_insert", "replace", "replace_full"}
(* the map operation with the same hashing obligations *)
AsMapOp(n) == IF n \in SInserts THEN "insert" ELSE "get"

(* Scanning x against y under failures: stop at the first element whose       *)
(* membership is `stop'; the possible answers are <<"ok", <<0|1>>>> or an error *)
RECURSIVE ScanOutcomes(_, _, _, _, _, _)
ScanOutcomes(u, x, y, i, stop, flt) ==
  IF i > Len(x) THEN {<<"ok", <<1>>>>}
  ELSE LET k == x[i][1] IN
       (IF MayFail(u, y, "get", k, flt) THEN {ErrRes} ELSE {}) \cup
       (IF MustFail(u, y, "get", k, flt) THEN {}
        ELSE IF B(Pos(u, y, k) # 0) = stop THEN {<<"ok", <<0>>>>}
        ELSE ScanOutcomes(u, x, y, i + 1, stop, flt))
SubOut(u, x, y, flt) == IF Len(x) > Len(y) THEN {<<"ok", <<0>>>>} ELSE ScanOutcomes(u, x, y, 1, 0, flt)
(* either operand may be the one scanned *)
DisOut(u, x, y, flt) == ScanOutcomes(u, x, y, 1, 1, flt) \cup ScanOutcomes(u, y, x, 1, 1, flt)

SStep(u, st, op, flt, res) ==
  LET n == op[1]  a == op[2]
      r == SApply(u, st, op)
      exact == IF r[2] = res THEN {r[1]} ELSE {}
  IN
  IF n \in CapacityOps
  THEN IF CapacityAllowed(r[1], n, a, res) THEN {r[1]} ELSE {}
  ELSE IF flt = <<>> \/ flt[2] = <<>> THEN exact
  ELSE IF n \in {"extend", "append"}
  THEN LET O == BulkOutcomes(u, st.a, IF n = "extend" THEN Zip0(a) ELSE st.b, flt)
           b2 == IF n = "append" THEN <<>> ELSE st.b
       IN {[st EXCEPT !.a = o[1], !.b = b2] : o \in {o \in O : res = <<o[2], <<>>>>}}
  ELSE IF n = "from_iter"
  THEN LET O == BulkOutcomes(u, <<>>, Zip0(a), flt)
       IN {IF o[2] = "ok" THEN [st EXCEPT !.a = o[1]] ELSE st : o \in {o \in O : res = <<o[2], <<>>>>}}
  ELSE IF n = "subset"  \* the single-question forms, used when failures are planned
  THEN IF res \in SubOut(u, st.a, st.b, flt) THEN {st} ELSE {}
  ELSE IF n = "disjoint"
  THEN IF res \in DisOut(u, st.a, st.b, flt) THEN {st} ELSE {}
  ELSE IF n = "eql1"
  THEN LET X == IF Len(st.a) # Len(st.b) THEN {<<"ok", <<0>>>>} ELSE ScanOutcomes(u, st.a, st.b, 1, 0, flt)
       IN IF res \in X THEN {st} ELSE {}
  ELSE IF SKeyPos(n) = 0 THEN exact
  ELSE LET k == a[SKeyPos(n)] IN
       (IF MayFail(u, st.a, AsMapOp(n), k, flt) /\ res = ErrRes THEN {st} ELSE {}) \cup
       (IF ~MustFail(u, st.a, AsMapOp(n), k, flt) THEN exact ELSE {}) \cup
       (IF r[2] = Panic /\ res = Panic THEN {st} ELSE {})

SObsOk(u, st, o) ==
  /\ o.a = Elems(st.a) /\ o.b = Elems(st.b)
  /\ o.l # <<>> => o.l = LookupAll(u, st.a)
=============================================================================
