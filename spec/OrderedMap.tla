----------------------------- MODULE OrderedMap -----------------------------
(***************************************************************************)
(* The insertion-ordered map of /repo/rubymap (RubyMap) as an association  *)
(* list.  This module only has operators: the state is a value, every      *)
(* public operation is one atomic step (the linearisation point of a       *)
(* sequential library is the return of the call), and                      *)
(*                                                                         *)
(*    Apply(u, st, op)          = <<next state, result>>                    *)
(*    Step(u, st, op, flt, res) = the set of states the specification      *)
(*                                allows after `op' (with the planned key   *)
(*                                failure `flt') has returned `res'         *)
(*                                                                         *)
(* MC_OrderedMap explores Apply exhaustively in a small scope and emits    *)
(* one implementation test per transition; Trace_OrderedMap accepts or     *)
(* rejects recorded executions with Step.                                  *)
(*                                                                         *)
(*  u  : the key universe, [c |-> class of each key object,                *)
(*                          h |-> hash class of each key object].           *)
(*       Two key objects are eql iff their classes are equal; equal        *)
(*       classes have equal hash classes; different classes may collide.   *)
(*  st : [a, b |-> <<<<key object, value>>, ...>>] -- two maps, `a' is the *)
(*       one operations act on, `b' is the partner of clone, append,       *)
(*       split_off and equality.  Key object 0 is a removed entry kept as   *)
(*       a place holder while a traversal window is open.                  *)
(*  op : <<name, <<integer arguments>>>>                                   *)
(*  res: <<"ok"|"err"|"panic", <<integers>>>>; positions are 0-based as in *)
(*       the API, an absent value is the empty tuple.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y

RemoveAt(s, i)    == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
InsertAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
SwapRemoveAt(s, i) ==
  IF i = Len(s) THEN SubSeq(s, 1, i - 1)
  ELSE [SubSeq(s, 1, Len(s) - 1) EXCEPT ![i] = s[Len(s)]]
MoveTo(s, i, j)   == InsertAt(RemoveAt(s, i), j, s[i])
Rev(s)            == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Flat(s)           == [i \in 1..(2 * Len(s)) |-> s[(i + 1) \div 2][IF i % 2 = 1 THEN 1 ELSE 2]]
Unflat(f)         == [i \in 1..(Len(f) \div 2) |-> <<f[2 * i - 1], f[2 * i]>>]
KeysOf(s)         == [i \in 1..Len(s) |-> s[i][1]]
ValsOf(s)         == [i \in 1..Len(s) |-> s[i][2]]

(* position (1-based) of the live entry eql to key object k, 0 if none *)
Pos(u, s, k) ==
  LET S == {i \in DOMAIN s : s[i][1] # 0 /\ u.c[s[i][1]] = u.c[k]}
  IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE

(* insertion: an equal key keeps its object and position *)
Put(u, s, k, v) ==
  LET p == Pos(u, s, k)
  IN IF p = 0 THEN Append(s, <<k, v>>) ELSE [s EXCEPT ![p][2] = v]

RECURSIVE PutAll(_, _, _)
PutAll(u, s, kvs) ==
  IF kvs = <<>> THEN s
  ELSE PutAll(u, Put(u, s, Head(kvs)[1], Head(kvs)[2]), Tail(kvs))

(* key order used by the sorted operations: by class *)
Sorted(u, s) == \A i \in 1..(Len(s) - 1) : u.c[s[i][1]] < u.c[s[i + 1][1]]
LowerPos(u, s, k) == Cardinality({i \in DOMAIN s : u.c[s[i][1]] < u.c[k]})

SortIdx(s, Lt(_, _)) ==
  LET idx == SortSeq([i \in 1..Len(s) |-> i], LAMBDA x, y : Lt(x, y))
  IN [i \in 1..Len(s) |-> s[idx[i]]]
SortByKey(u, s) == SortIdx(s, LAMBDA x, y : u.c[s[x][1]] < u.c[s[y][1]])
(* stable sort by value modulo m *)
SortByVal(s, m) ==
  SortIdx(s, LAMBDA x, y : \/ s[x][2] % m < s[y][2] % m
                           \/ s[x][2] % m = s[y][2] % m /\ x < y)
SortByValKey(u, s, m) ==
  SortIdx(s, LAMBDA x, y : \/ s[x][2] % m < s[y][2] % m
                           \/ s[x][2] % m = s[y][2] % m /\ u.c[s[x][1]] < u.c[s[y][1]])

Ok(x)    == <<"ok", x>>
Panic    == <<"panic", <<>>>>
ErrRes   == <<"err", <<>>>>
B(p)     == IF p THEN 1 ELSE 0

(***************************************************************************)
(* An iteration script: 0 next, 1 next_back, 2 nth(1), 3 nth_back(1),      *)
(* 4 remaining length (len and both bounds of size_hint), 5 remaining      *)
(* content collected from a clone, 6 last of a clone, 7 count of a clone,  *)
(* 8 / 9 everything left, forwards / backwards.  lo..hi is what is left.   *)
(***************************************************************************)
(* what one yielded entry is recorded as: 0 pair, 1 key, 2 value *)
Enc(m, e) == CASE m = 0 -> <<e[1], e[2]>> [] m = 1 -> <<e[1]>> [] m = 2 -> <<e[2]>>
Window(s, lo, hi) == IF lo > hi THEN <<>> ELSE SubSeq(s, lo, hi)
RECURSIVE EncAll(_, _)
EncAll(x, m) == IF x = <<>> THEN <<>> ELSE Enc(m, Head(x)) \o EncAll(Tail(x), m)
RECURSIVE IterRun(_, _, _, _, _)
IterRun(s, lo, hi, script, m) ==
  IF script = <<>> THEN <<>>
  ELSE LET c == Head(script) IN
    CASE c = 0 -> IF lo > hi THEN <<-1>> \o IterRun(s, lo, hi, Tail(script), m)
                  ELSE Enc(m, s[lo]) \o IterRun(s, lo + 1, hi, Tail(script), m)
      [] c = 1 -> IF lo > hi THEN <<-1>> \o IterRun(s, lo, hi, Tail(script), m)
                  ELSE Enc(m, s[hi]) \o IterRun(s, lo, hi - 1, Tail(script), m)
      [] c = 2 -> IF lo + 1 > hi THEN <<-1>> \o IterRun(s, hi + 1, hi, Tail(script), m)
                  ELSE Enc(m, s[lo + 1]) \o IterRun(s, lo + 2, hi, Tail(script), m)
      [] c = 3 -> IF lo > hi - 1 THEN <<-1>> \o IterRun(s, lo, lo - 1, Tail(script), m)
                  ELSE Enc(m, s[hi - 1]) \o IterRun(s, lo, hi - 2, Tail(script), m)
      [] c = 4 -> <<hi - lo + 1, hi - lo + 1, hi - lo + 1>> \o IterRun(s, lo, hi, Tail(script), m)
      [] c = 5 -> EncAll(Window(s, lo, hi), m) \o <<-2>> \o IterRun(s, lo, hi, Tail(script), m)
      [] c = 8 -> EncAll(Window(s, lo, hi), m) \o <<-2>>
      [] c = 9 -> EncAll(Rev(Window(s, lo, hi)), m) \o <<-2>>
      [] c = 6 -> (IF lo > hi THEN <<-1>> ELSE Enc(m, s[hi])) \o IterRun(s, lo, hi, Tail(script), m)
      [] c = 7 -> <<hi - lo + 1>> \o IterRun(s, lo, hi, Tail(script), m)

(* kinds: 0 iter, 1 iter_mut, 2 into_iter, 3 keys, 4 into_keys, 5 values,  *)
(* 6 values_mut, 7 into_values, 8..15 the same families of a slice, 16 a    *)
(* draining iterator over the whole of a clone                              *)
IterRes(s, kind, script) ==
  CASE kind \in {0, 1, 2, 8, 9, 12, 16} -> IterRun(s, 1, Len(s), script, 0)
    [] kind \in {3, 4, 10, 14} -> IterRun(s, 1, Len(s), script, 1)
    [] kind \in {5, 6, 7, 11, 13, 15} -> IterRun(s, 1, Len(s), script, 2)

(***************************************************************************)
(* One operation on the pair of maps.                                      *)
(***************************************************************************)
Apply(u, st, op) ==
  LET n == op[1]
      a == op[2]
      A == st.a
      SetA(x)  == [st EXCEPT !.a = x]
      same(r)  == <<st, Ok(r)>>
      refuse   == <<st, Panic>>
      p        == Pos(u, A, a[1])                 \* for operations keyed by a[1]
      i1       == a[1] + 1                        \* for operations positioned by a[1]
      inb      == i1 \in 1..Len(A)
      ent(i)   == <<A[i][1], A[i][2]>>
      full(i)  == <<i - 1, A[i][1], A[i][2]>>
  IN
  CASE
     (* ---- lookups ---------------------------------------------------- *)
     n = "get"            -> same(IF p = 0 THEN <<>> ELSE <<A[p][2]>>)
  [] n = "contains"       -> same(<<B(p # 0)>>)
  [] n = "get_key_value"  -> same(IF p = 0 THEN <<>> ELSE ent(p))
  [] n = "get_full"       -> same(IF p = 0 THEN <<>> ELSE full(p))
  [] n = "get_index_of"   -> same(IF p = 0 THEN <<>> ELSE <<p - 1>>)
  [] n = "get_index"      -> same(IF inb THEN ent(i1) ELSE <<>>)
  [] n = "index"          -> IF inb THEN same(<<A[i1][2]>>) ELSE refuse
  [] n = "first"          -> same(IF A = <<>> THEN <<>> ELSE ent(1))
  [] n = "last"           -> same(IF A = <<>> THEN <<>> ELSE ent(Len(A)))
  [] n = "len"            -> same(<<Len(A), B(A = <<>>)>>)
  [] n = "get_range"      -> same(IF a[1] <= a[2] /\ a[2] <= Len(A)
                                  THEN <<1>> \o Flat(SubSeq(A, a[1] + 1, a[2])) ELSE <<0>>)
     (* ---- in-place value updates -------------------------------------- *)
  [] n = "get_mut"        -> IF p = 0 THEN same(<<>>)
                             ELSE <<SetA([A EXCEPT ![p][2] = a[2]]), Ok(<<A[p][2]>>)>>
  [] n = "get_full_mut"   -> IF p = 0 THEN same(<<>>)
                             ELSE <<SetA([A EXCEPT ![p][2] = a[2]]), Ok(full(p))>>
  [] n = "get_index_mut"  -> IF ~inb THEN same(<<>>)
                             ELSE <<SetA([A EXCEPT ![i1][2] = a[2]]), Ok(ent(i1))>>
  [] n = "index_mut"      -> IF ~inb THEN refuse
                             ELSE <<SetA([A EXCEPT ![i1][2] = a[2]]), Ok(<<A[i1][2]>>)>>
  [] n = "first_mut"      -> IF A = <<>> THEN same(<<>>)
                             ELSE <<SetA([A EXCEPT ![1][2] = a[1]]), Ok(ent(1))>>
  [] n = "last_mut"       -> IF A = <<>> THEN same(<<>>)
                             ELSE <<SetA([A EXCEPT ![Len(A)][2] = a[1]]), Ok(ent(Len(A)))>>
  [] n = "get_range_mut"  -> IF a[1] <= a[2] /\ a[2] <= Len(A)
                             THEN <<SetA([i \in 1..Len(A) |-> IF i > a[1] /\ i <= a[2]
                                            THEN <<A[i][1], A[i][2] + 1>> ELSE A[i]]), Ok(<<1>>)>>
                             ELSE same(<<0>>)
  [] n = "get_disjoint"   -> LET q == Pos(u, A, a[2]) IN
                             IF p # 0 /\ p = q THEN refuse
                             ELSE <<SetA([i \in 1..Len(A) |->
                                     IF i = p \/ i = q THEN <<A[i][1], A[i][2] + 1>> ELSE A[i]]),
                                    Ok(<<IF p = 0 THEN -1 ELSE A[p][2], IF q = 0 THEN -1 ELSE A[q][2]>>)>>
  [] n = "get_disjoint_idx" -> LET j1 == a[2] + 1 IN
                             IF ~inb \/ j1 \notin 1..Len(A) \/ i1 = j1 THEN same(<<>>)
                             ELSE <<SetA([i \in 1..Len(A) |->
                                     IF i = i1 \/ i = j1 THEN <<A[i][1], A[i][2] + 1>> ELSE A[i]]),
                                    Ok(ent(i1) \o ent(j1))>>
     (* ---- insertion ---------------------------------------------------- *)
  [] n \in {"insert", "pre_insert", "pre_insert_with", "sym_insert"} ->
                             <<SetA(Put(u, A, a[1], a[2])), Ok(IF p = 0 THEN <<>> ELSE <<A[p][2]>>)>>
  [] n \in {"insert_full", "sym_insert_full"} ->
                             <<SetA(Put(u, A, a[1], a[2])),
                               Ok(IF p = 0 THEN <<Len(A)>> ELSE <<p - 1, A[p][2]>>)>>
  [] n \in {"pre_get", "pre_get_with"} -> same(IF p = 0 THEN <<>> ELSE <<A[p][2]>>)
  [] n = "insert_sorted"  -> IF p # 0
                             THEN <<SetA([A EXCEPT ![p][2] = a[2]]), Ok(<<p - 1, A[p][2]>>)>>
                             ELSE LET q == LowerPos(u, A, a[1]) IN
                                  <<SetA(InsertAt(A, q + 1, <<a[1], a[2]>>)), Ok(<<q>>)>>
     (* insert_before i k v : the entry ends up just before what is at i    *)
  [] n = "insert_before"  -> LET i == a[1]  q == Pos(u, A, a[2]) IN
                             IF i > Len(A) THEN refuse
                             ELSE IF q = 0
                             THEN <<SetA(InsertAt(A, i + 1, <<a[2], a[3]>>)), Ok(<<i>>)>>
                             ELSE LET j == IF i > q - 1 THEN i - 1 ELSE i IN
                                  <<SetA(MoveTo([A EXCEPT ![q][2] = a[3]], q, j + 1)),
                                    Ok(<<j, A[q][2]>>)>>
     (* shift_insert i k v : the entry ends up at index i exactly           *)
  [] n = "shift_insert"   -> LET i == a[1]  q == Pos(u, A, a[2]) IN
                             IF q = 0
                             THEN IF i > Len(A) THEN refuse
                                  ELSE <<SetA(InsertAt(A, i + 1, <<a[2], a[3]>>)), Ok(<<>>)>>
                             ELSE IF i >= Len(A) THEN refuse
                                  ELSE <<SetA(MoveTo([A EXCEPT ![q][2] = a[3]], q, i + 1)),
                                         Ok(<<A[q][2]>>)>>
     (* ---- removal ------------------------------------------------------- *)
  [] n = "swap_remove"       -> IF p = 0 THEN same(<<>>)
                                ELSE <<SetA(SwapRemoveAt(A, p)), Ok(<<A[p][2]>>)>>
  [] n \in {"swap_remove_entry", "remove_entry"} ->
                                IF p = 0 THEN same(<<>>)
                                ELSE <<SetA(SwapRemoveAt(A, p)), Ok(ent(p))>>
  [] n = "swap_remove_full"  -> IF p = 0 THEN same(<<>>)
                                ELSE <<SetA(SwapRemoveAt(A, p)), Ok(full(p))>>
  [] n = "shift_remove"      -> IF p = 0 THEN same(<<>>)
                                ELSE <<SetA(RemoveAt(A, p)), Ok(<<A[p][2]>>)>>
  [] n = "shift_remove_entry" -> IF p = 0 THEN same(<<>>)
                                ELSE <<SetA(RemoveAt(A, p)), Ok(ent(p))>>
  [] n = "shift_remove_full" -> IF p = 0 THEN same(<<>>)
                                ELSE <<SetA(RemoveAt(A, p)), Ok(full(p))>>
  [] n = "swap_remove_index" -> IF ~inb THEN same(<<>>)
                                ELSE <<SetA(SwapRemoveAt(A, i1)), Ok(ent(i1))>>
  [] n = "shift_remove_index" -> IF ~inb THEN same(<<>>)
                                ELSE <<SetA(RemoveAt(A, i1)), Ok(ent(i1))>>
  [] n = "pop"               -> IF A = <<>> THEN same(<<>>)
                                ELSE <<SetA(SubSeq(A, 1, Len(A) - 1)), Ok(ent(Len(A)))>>
  [] n = "clear"             -> <<SetA(<<>>), Ok(<<>>)>>
     (* ---- removal inside a traversal window ------------------------------ *)
  [] n = "tombstone_remove"  -> IF p = 0 THEN same(<<>>)
                                ELSE <<SetA([A EXCEPT ![p] = <<0, 0>>]), Ok(full(p))>>
  [] n = "tombstone_index"   -> IF ~inb THEN same(<<>>)
                                ELSE <<SetA([A EXCEPT ![i1] = <<0, 0>>]), Ok(ent(i1))>>
  [] n = "compact"           -> <<SetA(SelectSeq(A, LAMBDA e : e[1] # 0)), Ok(<<>>)>>
     (* ---- entry handles -------------------------------------------------- *)
  [] n = "e_probe"           -> \* is it occupied, at which index, key seen through the handle
                                same(IF p = 0 THEN <<0, Len(A), a[1]>> ELSE <<1, p - 1, A[p][1], A[p][2]>>)
  [] n \in {"e_or_insert", "e_or_insert_with"} ->
                                <<SetA(IF p = 0 THEN Append(A, <<a[1], a[2]>>) ELSE A),
                                  Ok(<<IF p = 0 THEN a[2] ELSE A[p][2]>>)>>
  [] n = "e_or_insert_with_key" -> \* default computed from the key object itself
                                <<SetA(IF p = 0 THEN Append(A, <<a[1], a[1] * 10>>) ELSE A),
                                  Ok(<<IF p = 0 THEN a[1] * 10 ELSE A[p][2]>>)>>
  [] n = "e_or_default"      -> <<SetA(IF p = 0 THEN Append(A, <<a[1], 0>>) ELSE A),
                                  Ok(<<IF p = 0 THEN 0 ELSE A[p][2]>>)>>
  [] n = "e_insert_entry"    -> <<SetA(Put(u, A, a[1], a[2])),
                                  Ok(<<IF p = 0 THEN Len(A) ELSE p - 1,
                                       IF p = 0 THEN a[1] ELSE A[p][1], a[2]>>)>>
  [] n = "e_and_modify"      -> <<SetA(IF p = 0 THEN Append(A, <<a[1], a[2]>>)
                                       ELSE [A EXCEPT ![p][2] = @ + 1]),
                                  Ok(<<IF p = 0 THEN a[2] ELSE A[p][2] + 1>>)>>
  [] n = "e_occ_insert"      -> IF p = 0 THEN same(<<>>)
                                ELSE <<SetA([A EXCEPT ![p][2] = a[2]]), Ok(<<A[p][2]>>)>>
  [] n = "e_occ_get_mut"     -> IF p = 0 THEN same(<<>>)
                                ELSE <<SetA([A EXCEPT ![p][2] = a[2]]), Ok(<<A[p][2]>>)>>
  [] n \in {"e_occ_swap_remove", "e_occ_remove"} ->
                                IF p = 0 THEN same(<<>>)
                                ELSE <<SetA(SwapRemoveAt(A, p)), Ok(<<A[p][2]>>)>>
  [] n \in {"e_occ_swap_remove_entry", "e_occ_remove_entry"} ->
                                IF p = 0 THEN same(<<>>)
                                ELSE <<SetA(SwapRemoveAt(A, p)), Ok(ent(p))>>
  [] n = "e_occ_shift_remove" -> IF p = 0 THEN same(<<>>)
                                ELSE <<SetA(RemoveAt(A, p)), Ok(<<A[p][2]>>)>>
  [] n = "e_occ_shift_remove_entry" -> IF p = 0 THEN same(<<>>)
                                ELSE <<SetA(RemoveAt(A, p)), Ok(ent(p))>>
  [] n = "e_occ_move"        -> IF p = 0 THEN same(<<0>>)
                                ELSE IF a[2] >= Len(A) THEN refuse
                                ELSE <<SetA(MoveTo(A, p, a[2] + 1)), Ok(<<1>>)>>
  [] n = "e_vac_insert"      -> IF p # 0 THEN same(<<>>)
                                ELSE <<SetA(Append(A, <<a[1], a[2]>>)), Ok(<<a[2]>>)>>
  [] n = "e_vac_insert_entry" -> IF p # 0 THEN same(<<>>)
                                ELSE <<SetA(Append(A, <<a[1], a[2]>>)), Ok(<<Len(A), a[1], a[2]>>)>>
  [] n = "e_vac_into_key"    -> same(IF p # 0 THEN <<>> ELSE <<a[1]>>)
  [] n = "e_vac_shift_insert" -> IF p # 0 THEN same(<<>>)
                                ELSE IF a[2] > Len(A) THEN refuse
                                ELSE <<SetA(InsertAt(A, a[2] + 1, <<a[1], a[3]>>)), Ok(<<a[3]>>)>>
  [] n = "e_vac_insert_sorted" -> IF p # 0 THEN same(<<>>)
                                ELSE LET q == LowerPos(u, A, a[1]) IN
                                     <<SetA(InsertAt(A, q + 1, <<a[1], a[2]>>)), Ok(<<q, a[2]>>)>>
     (* indexed handles; source 0 get_index_entry, 1 first_entry, 2 last_entry *)
  [] n = "ie_probe"          -> same(IF inb THEN full(i1) ELSE <<>>)
  [] n = "ie_first"          -> same(IF A = <<>> THEN <<>> ELSE full(1))
  [] n = "ie_last"           -> same(IF A = <<>> THEN <<>> ELSE full(Len(A)))
  [] n = "ie_insert"         -> IF ~inb THEN same(<<>>)
                                ELSE <<SetA([A EXCEPT ![i1][2] = a[2]]), Ok(<<A[i1][2]>>)>>
  [] n = "ie_swap_remove"    -> IF ~inb THEN same(<<>>)
                                ELSE <<SetA(SwapRemoveAt(A, i1)), Ok(<<A[i1][2]>>)>>
  [] n = "ie_swap_remove_entry" -> IF ~inb THEN same(<<>>)
                                ELSE <<SetA(SwapRemoveAt(A, i1)), Ok(ent(i1))>>
  [] n = "ie_shift_remove"   -> IF ~inb THEN same(<<>>)
                                ELSE <<SetA(RemoveAt(A, i1)), Ok(<<A[i1][2]>>)>>
  [] n = "ie_shift_remove_entry" -> IF ~inb THEN same(<<>>)
                                ELSE <<SetA(RemoveAt(A, i1)), Ok(ent(i1))>>
  [] n = "ie_move"           -> IF ~inb THEN same(<<0>>)
                                ELSE IF a[2] >= Len(A) THEN refuse
                                ELSE <<SetA(MoveTo(A, i1, a[2] + 1)), Ok(<<1>>)>>
  [] n = "ie_to_occupied"    -> same(IF inb THEN full(i1) ELSE <<>>)
  [] n = "e_to_indexed"      -> same(IF p = 0 THEN <<>> ELSE full(p))
     (* ---- reordering and bulk edits -------------------------------------- *)
  [] n = "move_index"        -> IF ~inb \/ a[2] >= Len(A) THEN refuse
                                ELSE <<SetA(MoveTo(A, i1, a[2] + 1)), Ok(<<>>)>>
  [] n \in {"sort_keys", "sort_unstable_keys"} -> <<SetA(SortByKey(u, A)), Ok(<<>>)>>
  [] n \in {"sort_by", "sort_by_cached_key"} -> <<SetA(SortByVal(A, a[1])), Ok(<<>>)>>
  [] n = "sort_unstable_by"  -> <<SetA(SortByValKey(u, A, a[1])), Ok(<<>>)>>
  [] n = "sorted_by"         -> same(Flat(SortByVal(A, a[1])))
  [] n = "sorted_unstable_by" -> same(Flat(SortByValKey(u, A, a[1])))
  [] n = "reverse"           -> <<SetA(Rev(A)), Ok(<<>>)>>
     (* retain m r : keep v % m # r, adding 1 to every kept value            *)
  [] n = "retain"            -> LET K == SelectSeq(A, LAMBDA e : e[2] % a[1] # a[2]) IN
                                <<SetA([i \in 1..Len(K) |-> <<K[i][1], K[i][2] + 1>>]), Ok(Flat(A))>>
     (* drain s e f g: take f from the front, g from the back, then drop      *)
  [] n = "drain"             -> IF a[1] > a[2] \/ a[2] > Len(A) THEN refuse
                                ELSE LET W == SubSeq(A, a[1] + 1, a[2])
                                         f == Min2(a[3], Len(W))
                                         g == Min2(a[4], Len(W) - f)
                                     IN <<SetA(SubSeq(A, 1, a[1]) \o SubSeq(A, a[2] + 1, Len(A))),
                                          Ok(<<Len(W)>> \o Flat(SubSeq(W, 1, f))
                                             \o Flat(Rev(SubSeq(W, Len(W) - g + 1, Len(W))))
                                             \o <<Len(W) - f - g>>)>>
  [] n = "split_off"         -> IF a[1] > Len(A) THEN refuse
                                ELSE <<[st EXCEPT !.a = SubSeq(A, 1, a[1]),
                                                  !.b = SubSeq(A, a[1] + 1, Len(A))], Ok(<<>>)>>
  [] n = "truncate"          -> <<SetA(SubSeq(A, 1, Min2(a[1], Len(A)))), Ok(<<>>)>>
  [] n = "append"            -> <<[st EXCEPT !.a = PutAll(u, A, st.b), !.b = <<>>], Ok(<<>>)>>
  [] n = "extend"            -> <<SetA(PutAll(u, A, Unflat(a))), Ok(<<>>)>>
  [] n \in {"from_iter", "from_ary"} -> <<SetA(PutAll(u, <<>>, Unflat(a))), Ok(<<>>)>>
  [] n \in {"binary_search_keys", "binary_search_by", "binary_search_by_key"} ->
                                same(IF p # 0 THEN <<1, p - 1>> ELSE <<0, LowerPos(u, A, a[1])>>)
  [] n = "partition_point"   -> same(<<LowerPos(u, A, a[1])>>)
     (* ---- whole-map operations -------------------------------------------- *)
  [] n = "swap"              -> <<[st EXCEPT !.a = st.b, !.b = st.a], Ok(<<>>)>>
  [] n \in {"clone", "clone_from"} -> <<[st EXCEPT !.b = A], Ok(<<>>)>>
  [] n \in {"map_keys", "map_keys_opt"} -> same(<<>>)
  [] n = "eq"                -> LET sub(x, y) == \A i \in DOMAIN x :
                                       LET q == Pos(u, y, x[i][1]) IN q # 0 /\ y[q][2] = x[i][2]
                                    r == B(Len(A) = Len(st.b) /\ sub(A, st.b))
                                IN same(<<r, r>>)
  [] n = "iter"              -> same(IterRes(A, a[1], SubSeq(a, 2, Len(a))))
     (* slice s e j : parts of the positional slice s..e                      *)
  [] n = "slice"             ->
       IF a[1] > a[2] \/ a[2] > Len(A) THEN same(<<0>>)
       ELSE LET W == SubSeq(A, a[1] + 1, a[2])
                L == Len(W)
                m == Min2(a[3], L)
                kv(i) == IF i \in 1..L THEN <<W[i][1], W[i][2]>> ELSE <<>>
            IN same(<<1, L, B(L = 0)>> \o kv(1) \o kv(L) \o kv(a[3] + 1)
                    \o KeysOf(SubSeq(W, 1, m)) \o <<-2>> \o ValsOf(SubSeq(W, m + 1, L)) \o <<-2>>
                    \o kv(1) \o KeysOf(SubSeq(W, 2, L)) \o <<-2>>
                    \o kv(L) \o KeysOf(SubSeq(W, 1, L - 1)))
  [] n = "bump_values"       -> <<SetA([i \in 1..Len(A) |-> <<A[i][1], A[i][2] + 1>>]), Ok(<<>>)>>
     (* ---- capacity: the content part (the reported capacity is checked in Step) *)
  [] n \in {"reserve", "reserve_exact", "shrink_to_fit", "shrink_to", "capacity"} -> same(<<>>)
  [] n = "with_capacity"     -> <<SetA(<<>>), Ok(<<>>)>>

(***************************************************************************)
(* Planned key failures.  flt = <<>> none; <<"hash", ids>> the hash of the *)
(* key objects `ids' fails; <<"eql", ids>> every comparison involving one  *)
(* of these objects fails.                                                 *)
(*                                                                         *)
(* KeyOps: the operations that take one key in a[kp].                      *)
(***************************************************************************)
KeyPos(n) ==
  IF n \in {"insert_before", "shift_insert"} THEN 2
  ELSE IF n \in {"get", "contains", "get_key_value", "get_full", "get_index_of", "get_mut",
                 "get_full_mut", "insert", "insert_full", "swap_remove", "swap_remove_entry",
                 "remove_entry", "swap_remove_full", "shift_remove", "shift_remove_entry",
                 "shift_remove_full", "tombstone_remove", "e_probe", "e_or_insert",
                 "e_or_insert_with", "e_or_insert_with_key", "e_or_default", "e_insert_entry",
                 "e_and_modify", "e_occ_insert", "e_occ_get_mut", "e_occ_swap_remove",
                 "e_occ_remove", "e_occ_swap_remove_entry", "e_occ_remove_entry",
                 "e_occ_shift_remove", "e_occ_shift_remove_entry", "e_occ_move",
                 "e_vac_insert", "e_vac_insert_entry", "e_vac_into_key", "e_vac_shift_insert",
                 "e_to_indexed"} THEN 1
  ELSE 0

InSeq(x, s) == \E i \in DOMAIN s : s[i] = x

(* must looking k up in s fail / may it fail, under the failure plan?       *)
HashFails(u, k, flt) == flt # <<>> /\ flt[1] = "hash" /\ InSeq(k, flt[2])
FaultySet(u, s, k, flt) ==
  IF flt = <<>> \/ flt[1] # "eql" THEN {}
  ELSE {i \in DOMAIN s : s[i][1] # 0 /\ u.h[s[i][1]] = u.h[k]
                         /\ (InSeq(k, flt[2]) \/ InSeq(s[i][1], flt[2]))}
EqlMustFail(u, s, k, flt) ==
  LET F == FaultySet(u, s, k, flt)  m == Pos(u, s, k) IN IF m # 0 THEN m \in F ELSE F # {}
EqlMayFail(u, s, k, flt) == FaultySet(u, s, k, flt) # {}

(* Reading an empty map need not hash the key at all, so a failing hash may *)
(* or may not be noticed there; inserting always hashes.                    *)
Hashes(n) == n \in {"insert", "insert_full", "insert_before", "shift_insert"} \/
             n \in {"e_probe", "e_or_insert", "e_or_insert_with", "e_or_insert_with_key",
                    "e_or_default", "e_insert_entry", "e_and_modify", "e_vac_insert",
                    "e_vac_insert_entry", "e_vac_into_key", "e_vac_shift_insert",
                    "e_occ_insert", "e_occ_get_mut", "e_occ_swap_remove", "e_occ_remove",
                    "e_occ_swap_remove_entry", "e_occ_remove_entry", "e_occ_shift_remove",
                    "e_occ_shift_remove_entry", "e_occ_move", "e_to_indexed"}

MustFail(u, s, n, k, flt) ==
  \/ HashFails(u, k, flt) /\ (s # <<>> \/ Hashes(n))
  \/ EqlMustFail(u, s, k, flt)
MayFail(u, s, n, k, flt) == HashFails(u, k, flt) \/ EqlMayFail(u, s, k, flt)

(* Bulk insertion of kvs into s under a failure plan: the set of possible    *)
(* outcomes <<resulting entries, "ok"|"err">>.                               *)
RECURSIVE BulkOutcomes(_, _, _, _)
BulkOutcomes(u, s, kvs, flt) ==
  IF kvs = <<>> THEN {<<s, "ok">>}
  ELSE LET k == Head(kvs)[1] IN
       (IF MayFail(u, s, "insert", k, flt) THEN {<<s, "err">>} ELSE {}) \cup
       (IF MustFail(u, s, "insert", k, flt) THEN {}
        ELSE BulkOutcomes(u, Put(u, s, k, Head(kvs)[2]), Tail(kvs), flt))

(* Map equality under failures: the set of possible answers.                  *)
RECURSIVE EqOutcomes(_, _, _, _, _)
EqOutcomes(u, x, y, i, flt) ==
  IF i > Len(x) THEN {<<"ok", <<1>>>>}
  ELSE LET k == x[i][1]  q == Pos(u, y, k) IN
       (IF MayFail(u, y, "get", k, flt) THEN {ErrRes} ELSE {}) \cup
       (IF MustFail(u, y, "get", k, flt) THEN {}
        ELSE IF q # 0 /\ y[q][2] = x[i][2] THEN EqOutcomes(u, x, y, i + 1, flt)
        ELSE {<<"ok", <<0>>>>})

CapacityOps == {"reserve", "reserve_exact", "shrink_to_fit", "shrink_to", "capacity", "with_capacity"}
(* the answer is <<capacity before, capacity after>>                        *)
CapacityAllowed(st2, n, a, res) ==
  /\ res[1] = "ok" /\ Len(res[2]) = 2
  /\ res[2][2] >= Len(st2.a)
  /\ n \in {"reserve", "reserve_exact"} =>
        res[2][2] >= Len(st2.a) + a[1] /\ res[2][2] >= res[2][1]
  /\ n \in {"shrink_to", "shrink_to_fit"} => res[2][2] <= res[2][1]
  /\ n = "shrink_to" => res[2][2] >= Min2(res[2][1], a[1])
  /\ n = "capacity" => res[2][1] = res[2][2]
  /\ n = "with_capacity" => res[2][2] >= a[1]

Step(u, st, op, flt, res) ==
  LET n == op[1]  a == op[2] IN
  IF n \in CapacityOps
  THEN LET r == Apply(u, st, op) IN IF CapacityAllowed(r[1], n, a, res) THEN {r[1]} ELSE {}
  ELSE IF flt = <<>> \/ flt[2] = <<>>
  THEN LET r == Apply(u, st, op) IN IF r[2] = res THEN {r[1]} ELSE {}
  ELSE IF n \in {"extend", "append"}
  THEN LET kvs == IF n = "extend" THEN Unflat(a) ELSE st.b
           O == BulkOutcomes(u, st.a, kvs, flt)
           b2 == IF n = "append" THEN <<>> ELSE st.b
       IN {[st EXCEPT !.a = o[1], !.b = b2] : o \in {o \in O : res = <<o[2], <<>>>>}}
  ELSE IF n = "from_iter"
  THEN \* a failed construction leaves the old map in place
       LET O == BulkOutcomes(u, <<>>, Unflat(a), flt)
       IN {IF o[2] = "ok" THEN [st EXCEPT !.a = o[1]] ELSE st : o \in {o \in O : res = <<o[2], <<>>>>}}
  ELSE IF n = "eq"
  THEN LET X == IF Len(st.a) # Len(st.b) THEN {<<"ok", <<0>>>>} ELSE EqOutcomes(u, st.a, st.b, 1, flt)
           Y == IF Len(st.a) # Len(st.b) THEN {<<"ok", <<0>>>>} ELSE EqOutcomes(u, st.b, st.a, 1, flt)
           R == {IF x = ErrRes \/ y = ErrRes THEN ErrRes ELSE <<"ok", x[2] \o y[2]>> : x \in X, y \in Y}
       IN IF res \in R THEN {st} ELSE {}
  ELSE IF KeyPos(n) = 0
  THEN LET r == Apply(u, st, op) IN IF r[2] = res THEN {r[1]} ELSE {}
  ELSE LET k == a[KeyPos(n)]
           r == Apply(u, st, op)
       IN (IF MayFail(u, st.a, n, k, flt) /\ res = ErrRes THEN {st} ELSE {}) \cup
          (IF ~MustFail(u, st.a, n, k, flt) /\ r[2] = res THEN {r[1]} ELSE {}) \cup
          \* out-of-range positions may be refused before or after the key is looked at
          (IF r[2] = Panic /\ res = Panic THEN {st} ELSE {})

(***************************************************************************)
(* What an observer of the real maps must see in state st: the entries of  *)
(* both by iteration, the position found for every key object of the       *)
(* universe (0 = absent, else 1-based), and the number of live values.     *)
(***************************************************************************)
LookupAll(u, s) == [k \in 1..Len(u.c) |-> Pos(u, s, k)]
ObsOk(u, st, o) ==
  /\ o.a = Flat(st.a)
  /\ o.b = Flat(st.b)
  /\ o.l # <<>> => o.l = LookupAll(u, st.a)
  /\ o.n = Len(st.a) + Len(st.b)

(* properties of the model itself *)
UniqueKeys(u, s) ==
  \A i, j \in DOMAIN s : (i # j /\ s[i][1] # 0 /\ s[j][1] # 0) => u.c[s[i][1]] # u.c[s[j][1]]
Closed(s) == \A i \in DOMAIN s : s[i][1] # 0
=============================================================================
