--------------------------- MODULE MC_OrderedSet ---------------------------
(* Exhaustive exploration of OrderedSet in a small scope around the size at  *)
(* which the implementation changes representation (see MC_OrderedMap).      *)
EXTENDS OrderedSet, Json
CONSTANTS Fills, Depth, Emit
U == [c |-> <<1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11>>,
      h |-> <<1, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10>>]
Keys == 1..4
VARIABLES st, path, base, res
vars == <<st, path, base, res>>
View == st
FillOps(f) == [i \in 1..f |-> <<"insert", <<4 + i>>>>]
Filled(f)  == [i \in 1..f |-> <<4 + i, 0>>]
Idx(s) == {0, 1, Len(s) - 1, Len(s), Len(s) + 1} \cap 0..(Len(s) + 1)
Ops ==
  {<<n, <<k>>>> : n \in {"insert", "insert_full", "replace", "replace_full", "contains", "get", "get_full",
      "get_index_of", "swap_remove", "shift_remove", "swap_take", "shift_take", "swap_remove_full",
      "shift_remove_full"}, k \in Keys \cup {5}} \cup
  {<<n, <<i, k>>>> : n \in {"insert_before", "shift_insert"}, i \in Idx(st.a), k \in Keys \cup {5}} \cup
  {<<n, <<i>>>> : n \in {"get_index", "index", "swap_remove_index", "shift_remove_index", "truncate",
                        "split_off"}, i \in Idx(st.a)} \cup
  {<<"move_index", <<i, j>>>> : i, j \in Idx(st.a)} \cup
  {<<n, <<>>>> : n \in {"pop", "clear", "first", "last", "len", "append", "reverse", "swap",
                       "sort", "relations", "eql"}} \cup
  {<<n, <<2>>>> : n \in {"sort_by", "sort_by_cached_key", "sort_unstable_by"}} \cup
  {<<"retain", <<2, r>>>> : r \in {0, 1}} \cup
  {<<"extend", <<1, 3, 2>>>>, <<"from_iter", <<3, 1, 2>>>>, <<"drain", <<1, 2, 1, 1>>>>}
Init == /\ base \in Fills /\ path = FillOps(base) /\ res = <<"ok", <<>>>>
        /\ st = [a |-> Filled(base), b |-> <<>>]
Next == /\ Len(path) < base + Depth
        /\ \E op \in Ops : LET r == SApply(U, st, op) IN
             /\ st' = r[1] /\ res' = r[2] /\ path' = Append(path, op) /\ UNCHANGED base
Spec == Init /\ [][Next]_vars
Bound == Len(st.a) <= base + 3 /\ Len(st.b) <= base + 3
EmitT == \/ ~Emit
         \/ PrintT(ToJson([p |-> path', r |-> res', a |-> Elems(st'.a), b |-> Elems(st'.b),
                           l |-> LookupAll(U, st'.a)]))
(* ------------------------------- laws -------------------------------------- *)
Classes(s) == {U.c[s[i][1]] : i \in DOMAIN s}
Unique == UniqueKeys(U, st.a) /\ UniqueKeys(U, st.b)
          /\ \A i \in DOMAIN st.a : st.a[i][2] = 0
LawsOf(op) ==
  LET n == op[1]  a == op[2] IN
  /\ n \in {"insert", "insert_full", "replace", "replace_full"} =>
        Classes(st'.a) = Classes(st.a) \cup {U.c[a[1]]}
  /\ n \in {"swap_remove", "shift_remove", "swap_take", "shift_take", "swap_remove_full", "shift_remove_full"} =>
        Classes(st'.a) = Classes(st.a) \ {U.c[a[1]]}
  /\ n = "append" => Classes(st'.a) = Classes(st.a) \cup Classes(st.b) /\ st'.b = <<>>
  /\ n = "split_off" /\ res'[1] = "ok" => st'.a \o st'.b = st.a
  /\ n \in {"reverse", "move_index", "sort", "sort_by", "sort_unstable_by"} => Classes(st'.a) = Classes(st.a)
  /\ n = "relations" => LET r == res'[2] IN r[1] = r[5] /\ r[2] = r[4] /\ r[3] = r[6]
                            /\ (r[1] = 1 <=> Classes(st.a) \subseteq Classes(st.b))
                            /\ (r[3] = 1 <=> Classes(st.a) \cap Classes(st.b) = {})
  /\ n = "replace" => \E i \in DOMAIN st'.a : st'.a[i][1] = a[1]
  /\ res'[1] = "panic" => st' = st
Laws == [][LawsOf(path'[Len(path')])]_vars
=============================================================================
