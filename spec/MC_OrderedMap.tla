--------------------------- MODULE MC_OrderedMap ---------------------------
(* Exhaustive exploration of OrderedMap in a small scope, starting from the *)
(* empty map and from maps filled to just below / at / above the size at     *)
(* which the implementation changes representation.  Every explored          *)
(* transition is emitted (path, result, observation) and replayed against    *)
(* the real RubyMap.  The model's own laws are checked on the way.           *)
EXTENDS OrderedMap, Json
CONSTANTS Profile, Fills, Depth, Emit

(* objects 1, 2 are eql; 3 collides with them; 4 is unrelated; 5.. fillers   *)
U == [c |-> <<1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11>>,
      h |-> <<1, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10>>]
Keys == 1..4
Vals == {1, 2}
VARIABLES st, path, base, res
vars == <<st, path, base, res>>
View == st

FillOps(f) == [i \in 1..f |-> <<"insert", <<4 + i, 10 + i>>>>]
Filled(f)  == [i \in 1..f |-> <<4 + i, 10 + i>>]

KOps(names)      == {<<n, <<k>>>> : n \in names, k \in Keys \cup {5}}
KVOps(names)     == {<<n, <<k, v>>>> : n \in names, k \in Keys \cup {5}, v \in Vals}
K1VOps(names, v) == {<<n, <<k, v>>>> : n \in names, k \in Keys \cup {5}}
Idx(s)           == {0, 1, Len(s) - 1, Len(s), Len(s) + 1} \cap 0..(Len(s) + 1)
IOps(names)      == {<<n, <<i>>>> : n \in names, i \in Idx(st.a)}
IVOps(names)     == {<<n, <<i, 3>>>> : n \in names, i \in Idx(st.a)}
IIOps(names)     == {<<n, <<i, j>>>> : n \in names, i, j \in Idx(st.a)}
NOps(names)      == {<<n, <<>>>> : n \in names}

Plain == KVOps({"insert"}) \cup KOps({"swap_remove", "shift_remove"})

Open == Closed(st.a)

Ops ==
  CASE Profile = "M01" ->
         KVOps({"insert", "insert_full"}) \cup
         KOps({"get", "contains", "get_key_value", "get_full", "get_index_of", "swap_remove",
               "swap_remove_entry", "remove_entry", "swap_remove_full", "shift_remove",
               "shift_remove_entry", "shift_remove_full"}) \cup
         K1VOps({"get_mut", "get_full_mut"}, 3) \cup
         IOps({"get_index", "index", "swap_remove_index", "shift_remove_index"}) \cup
         IVOps({"get_index_mut", "index_mut"}) \cup
         NOps({"pop", "clear", "first", "last", "len", "clone", "swap"}) \cup
         {<<n, <<3>>>> : n \in {"first_mut", "last_mut"}} \cup
         {<<"get_disjoint", <<k, l>>>> : k, l \in Keys} \cup IIOps({"get_disjoint_idx"})
    [] Profile = "M03" ->
         IF Open THEN Plain \cup KOps({"tombstone_remove"}) \cup IOps({"tombstone_index"}) \cup NOps({"compact"})
         ELSE KOps({"tombstone_remove", "get_full"}) \cup NOps({"compact"}) \cup
              {<<"tombstone_index", <<i>>>> : i \in {i \in Idx(st.a) : i >= Len(st.a) \/ st.a[i + 1][1] # 0}} \cup
              {<<"insert", <<k, 3>>>> : k \in {k \in Keys : Pos(U, st.a, k) # 0}}
    [] Profile = "M04" ->
         Plain \cup
         KOps({"e_probe", "e_or_insert_with_key", "e_or_default", "e_occ_swap_remove", "e_occ_remove",
               "e_occ_swap_remove_entry", "e_occ_remove_entry", "e_occ_shift_remove",
               "e_occ_shift_remove_entry", "e_vac_into_key", "e_to_indexed"}) \cup
         K1VOps({"e_or_insert", "e_or_insert_with", "e_insert_entry", "e_and_modify", "e_occ_insert",
                 "e_occ_get_mut", "e_vac_insert", "e_vac_insert_entry"}, 3) \cup
         {<<"e_occ_move", <<k, i>>>> : k \in Keys \cup {5}, i \in Idx(st.a)} \cup
         {<<"e_vac_shift_insert", <<k, i, 3>>>> : k \in Keys, i \in Idx(st.a)} \cup
         IOps({"ie_probe", "ie_swap_remove", "ie_swap_remove_entry", "ie_shift_remove",
               "ie_shift_remove_entry", "ie_to_occupied"}) \cup
         IVOps({"ie_insert"}) \cup IIOps({"ie_move"}) \cup NOps({"ie_first", "ie_last"})
    [] Profile = "M05" ->
         Plain \cup IIOps({"move_index"}) \cup
         {<<n, <<i, k, 3>>>> : n \in {"insert_before", "shift_insert"}, i \in Idx(st.a), k \in Keys \cup {5}} \cup
         NOps({"sort_keys", "sort_unstable_keys", "reverse", "append", "swap"}) \cup
         {<<n, <<m>>>> : n \in {"sort_by", "sort_by_cached_key", "sort_unstable_by", "sorted_by"}, m \in {2, 3}} \cup
         {<<"retain", <<2, r>>>> : r \in {0, 1}} \cup
         {<<"drain", <<i, j, 1, 1>>>> : i, j \in Idx(st.a)} \cup
         IOps({"split_off", "truncate"}) \cup
         {<<"extend", <<1, 5, 3, 6, 2, 7>>>>} \cup
         (IF Sorted(U, st.a) THEN K1VOps({"insert_sorted"}, 3) \cup
             KOps({"binary_search_keys", "partition_point"}) ELSE {})
    [] Profile = "M06" ->
         Plain \cup
         KVOps({"sym_insert", "sym_insert_full", "pre_insert", "pre_insert_with", "insert_full"}) \cup
         KOps({"pre_get", "pre_get_with", "get"}) \cup NOps({"map_keys", "map_keys_opt", "reverse"})
    [] Profile = "M07" ->
         Plain \cup NOps({"clone", "clone_from", "map_keys", "map_keys_opt", "swap", "append", "reverse"}) \cup
         {<<n, l>> : n \in {"extend", "from_iter"}, l \in {<<>>, <<1, 5>>, <<1, 5, 2, 6>>, <<3, 1, 1, 2, 3, 4>>}}
    [] Profile = "M08" ->
         Plain \cup
         {<<"iter", <<kd>> \o sc>> : kd \in 0..16,
            sc \in {<<0, 1, 4, 0>>, <<1, 0, 0, 8>>, <<2, 4, 1, 9>>, <<3, 4, 0, 4>>}} \cup
         {<<"drain", <<i, j, f, g>>>> : i, j \in Idx(st.a), f, g \in {0, 2}} \cup
         {<<"slice", <<i, j, 1>>>> : i, j \in Idx(st.a)} \cup {<<"bump_values", <<b>>>> : b \in 0..4}
    [] Profile = "M09" ->
         Plain \cup NOps({"clear", "clone", "swap"}) \cup IOps({"truncate"})

Init == /\ base \in Fills /\ path = FillOps(base) /\ res = <<"ok", <<>>>>
        /\ st = [a |-> Filled(base), b |-> <<>>]
Next == /\ Len(path) < base + Depth
        /\ \E op \in Ops :
             LET r == Apply(U, st, op) IN
             /\ st' = r[1] /\ res' = r[2] /\ path' = Append(path, op) /\ UNCHANGED base
Spec == Init /\ [][Next]_vars

Bound == Len(st.a) <= base + 3 /\ Len(st.b) <= base + 3

EmitT == \/ ~Emit
         \/ PrintT(ToJson([p |-> path', r |-> res', a |-> Flat(st'.a), b |-> Flat(st'.b),
                           l |-> LookupAll(U, st'.a), n |-> Len(st'.a) + Len(st'.b)]))

(* ---------------------------- laws of the model --------------------------- *)
Unique == UniqueKeys(U, st.a) /\ UniqueKeys(U, st.b)

ClassesOf(s)  == {U.c[s[i][1]] : i \in {i \in DOMAIN s : s[i][1] # 0}}
ValueIn(s, c) == LET i == CHOOSE i \in DOMAIN s : s[i][1] # 0 /\ U.c[s[i][1]] = c IN s[i][2]
ObjectIn(s, c) == LET i == CHOOSE i \in DOMAIN s : s[i][1] # 0 /\ U.c[s[i][1]] = c IN s[i][1]
Index(s, c)   == CHOOSE i \in DOMAIN s : s[i][1] # 0 /\ U.c[s[i][1]] = c
(* the classes C appear in the same relative order in s and t *)
SameOrder(s, t, C) == \A x, y \in C : (Index(s, x) < Index(s, y)) <=> (Index(t, x) < Index(t, y))
SameValues(s, t, C) == \A x \in C : ValueIn(s, x) = ValueIn(t, x) /\ ObjectIn(s, x) = ObjectIn(t, x)

Inserts == {"insert", "insert_full", "sym_insert", "sym_insert_full", "pre_insert", "pre_insert_with"}
ShiftRemovals == {"shift_remove", "shift_remove_entry", "shift_remove_full", "e_occ_shift_remove",
                  "e_occ_shift_remove_entry", "tombstone_remove"}
SwapRemovals == {"swap_remove", "swap_remove_entry", "remove_entry", "swap_remove_full",
                 "e_occ_swap_remove", "e_occ_remove", "e_occ_swap_remove_entry", "e_occ_remove_entry"}
Reorderings == {"move_index", "sort_keys", "sort_unstable_keys", "reverse", "sort_by",
                 "sort_by_cached_key", "sort_unstable_by", "e_occ_move", "ie_move"}
Lookups == {"get", "contains", "get_key_value", "get_full", "get_index_of", "get_index", "index",
            "first", "last", "len", "iter", "slice", "e_probe", "ie_probe", "map_keys", "map_keys_opt"}
LawsOf(op) ==
  LET n == op[1]  a == op[2]  A == st.a  Z == st'.a IN
  /\ n \in Inserts =>
       LET c == U.c[a[1]]  O == ClassesOf(A) \ {c} IN
       /\ ClassesOf(Z) = ClassesOf(A) \cup {c} /\ ValueIn(Z, c) = a[2]
       /\ SameValues(A, Z, O) /\ SameOrder(A, Z, ClassesOf(A))
       /\ (c \in ClassesOf(A) => ObjectIn(Z, c) = ObjectIn(A, c))
       /\ (c \notin ClassesOf(A) => Index(Z, c) = Len(Z))
  /\ n \in ShiftRemovals \cup SwapRemovals =>
       LET O == ClassesOf(A) \ {U.c[a[1]]} IN
       /\ ClassesOf(Z) = O /\ SameValues(A, Z, O)
       /\ (n \in ShiftRemovals => SameOrder(A, Z, O))
       /\ (n \in SwapRemovals /\ O # ClassesOf(A) =>
             \A x \in O : Index(Z, x) = Index(A, x) \/ Index(A, x) = Len(A))
  /\ n \in Reorderings =>
       ClassesOf(Z) = ClassesOf(A) /\ SameValues(A, Z, ClassesOf(A)) /\ Len(Z) = Len(A)
  /\ n \in Lookups => st' = st
  /\ res'[1] = "panic" => st' = st
  /\ n = "compact" => SameOrder(A, Z, ClassesOf(A)) /\ SameValues(A, Z, ClassesOf(A)) /\ Closed(Z)
Laws == [][LawsOf(path'[Len(path')])]_vars
=============================================================================
