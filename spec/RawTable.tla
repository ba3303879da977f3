------------------------------- MODULE RawTable -------------------------------
(* The open-addressing table inside /repo/hashbrown (RawTableInner) at the      *)
(* level of its control bytes: group probing, the trailing mirror bytes,        *)
(* tombstones, in-place rehashing and resizing.  HashTable.tla says what a      *)
(* table must do; this module says how this one does it and why that works      *)
(* (MC_RawTable checks it for small groups, Sim_RawTable walks it with the real *)
(* group width and hands the histories to the real code).                       *)
(*   t = [n     |-> number of buckets (a power of two; 1 = not allocated),      *)
(*        c     |-> control bytes 0..n+W-1: Empty, Deleted or a tag >= 0,       *)
(*        d     |-> bucket contents 0..n-1: <<id, h1, tag>> or None,            *)
(*        items |-> stored elements, gl |-> inserts left before growing]        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT W
Empty == -1
Deleted == -2
None == <<0, 0, 0>>

CapOf(n) == IF n - 1 < 8 THEN n - 1 ELSE (n \div 8) * 7
RECURSIVE Pow2(_, _)
Pow2(x, p) == IF p >= x THEN p ELSE Pow2(x, 2 * p)
ToBuckets(cap) == IF cap < 4 THEN 4 ELSE IF cap < 8 THEN 8 ELSE IF cap < 15 THEN 16
                  ELSE Pow2((cap * 8) \div 7, 1)
Blank(n) == [n |-> n, c |-> [i \in 0..(n + W - 1) |-> Empty], d |-> [i \in 0..(n - 1) |-> None],
             items |-> 0, gl |-> CapOf(n)]
Unallocated == Blank(1)
Full(t, i) == t.c[i] >= 0
Bag(t) == {t.d[i] : i \in {j \in 0..(t.n - 1) : Full(t, j)}}
Mirror(t, i) == ((i - W) % t.n) + W
SetCtrl(t, i, b) == [t EXCEPT !.c[i] = b, !.c[Mirror(t, i)] = b]
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

(* ------------------------------- probing ------------------------------------ *)
Special(t, p) == {j \in 0..(W - 1) : t.c[p + j] < 0}
FixSlot(t, i) == IF Full(t, i) THEN MinOf({j \in 0..(W - 1) : t.c[j] < 0}) ELSE i
RECURSIVE SlotFrom(_, _, _)
SlotFrom(t, pos, stride) ==
  LET S == Special(t, pos) IN
  IF S # {} THEN FixSlot(t, (pos + MinOf(S)) % t.n)
  ELSE SlotFrom(t, (pos + stride + W) % t.n, stride + W)
InsertSlot(t, h1) == SlotFrom(t, h1 % t.n, 0)
RECURSIVE FindFrom(_, _, _, _, _)
FindFrom(t, id, tag, pos, stride) ==      \* index, -1 absent, -3 would not end
  LET hit == {j \in 0..(W - 1) : t.c[pos + j] = tag /\ t.d[(pos + j) % t.n][1] = id} IN
  IF hit # {} THEN (pos + MinOf(hit)) % t.n
  ELSE IF \E j \in 0..(W - 1) : t.c[pos + j] = Empty THEN -1
  ELSE IF stride > t.n + W THEN -3
  ELSE FindFrom(t, id, tag, (pos + stride + W) % t.n, stride + W)
Find(t, id, h1, tag) == FindFrom(t, id, tag, h1 % t.n, 0)

(* ------------------------------ insertion ----------------------------------- *)
Place(t, i, e) ==
  LET old == t.c[i] IN
  [SetCtrl(t, i, e[3]) EXCEPT !.d[i] = e, !.items = @ + 1,
                              !.gl = IF old = Empty THEN @ - 1 ELSE @]
RECURSIVE MoveAll(_, _, _)
MoveAll(old, i, t) ==       \* into the fresh table t
  IF i = old.n THEN t
  ELSE MoveAll(old, i + 1, IF Full(old, i) THEN Place(t, InsertSlot(t, old.d[i][2]), old.d[i]) ELSE t)
Resize(t, cap) == MoveAll(t, 0, Blank(ToBuckets(cap)))

(* in-place rehash: every element becomes "to be placed" (Deleted), old         *)
(* tombstones become empty, then each is put where a probe would put it          *)
Prepared(t) ==
  LET c0 == [i \in 0..(t.n + W - 1) |-> IF t.c[i] >= 0 THEN Deleted ELSE Empty] IN
  [t EXCEPT !.c = [i \in 0..(t.n + W - 1) |->
     IF t.n < W THEN (IF i < W THEN c0[i] ELSE IF i - W < t.n THEN c0[i - W] ELSE Empty)
     ELSE IF i >= t.n THEN c0[i - t.n] ELSE c0[i]]]
GroupNo(t, pos, h1) == ((pos - h1) % t.n) \div W
RECURSIVE RehashFrom(_, _)
RehashFrom(t, i) ==
  IF i = t.n THEN [t EXCEPT !.gl = CapOf(t.n) - t.items]
  ELSE IF t.c[i] # Deleted THEN RehashFrom(t, i + 1)
  ELSE LET e == t.d[i]
           j == InsertSlot(t, e[2]) IN
    IF GroupNo(t, i, e[2]) = GroupNo(t, j, e[2])
    THEN RehashFrom(SetCtrl(t, i, e[3]), i + 1)
    ELSE IF t.c[j] = Empty
    THEN RehashFrom([SetCtrl(SetCtrl(t, j, e[3]), i, Empty) EXCEPT !.d[j] = e, !.d[i] = None], i + 1)
    ELSE RehashFrom([SetCtrl(t, j, e[3]) EXCEPT !.d[j] = e, !.d[i] = t.d[j]], i)
InPlace(t, add) == t.items + add <= CapOf(t.n) \div 2
Grow(t, add) ==
  IF InPlace(t, add) THEN RehashFrom(Prepared(t), 0)
  ELSE Resize(t, IF t.items + add > CapOf(t.n) + 1 THEN t.items + add ELSE CapOf(t.n) + 1)
Reserve(t, add) == IF add > t.gl THEN Grow(t, add) ELSE t
Insert(t, e) ==
  LET i == InsertSlot(t, e[2])
      t1 == IF t.gl = 0 /\ t.c[i] = Empty THEN Grow(t, 1) ELSE t
  IN Place(t1, InsertSlot(t1, e[2]), e)

(* ------------------------------- removal ------------------------------------ *)
EmptyAt(t, p) == {j \in 0..(W - 1) : t.c[p + j] = Empty}
Lead(t, p)  == IF EmptyAt(t, p) = {} THEN W ELSE W - 1 - (CHOOSE x \in EmptyAt(t, p) : \A y \in EmptyAt(t, p) : y <= x)
Trail(t, p) == IF EmptyAt(t, p) = {} THEN W ELSE MinOf(EmptyAt(t, p))
Tombstone(t, i) == Lead(t, (i - W) % t.n) + Trail(t, i) >= W
Erase(t, i) ==
  LET dead == Tombstone(t, i) IN
  [SetCtrl(t, i, IF dead THEN Deleted ELSE Empty) EXCEPT
     !.d[i] = None, !.items = @ - 1, !.gl = IF dead THEN @ ELSE @ + 1]
ShrinkTo(t, m) ==
  LET want == IF t.items > m THEN t.items ELSE m IN
  IF want = 0 THEN Unallocated
  ELSE IF ToBuckets(want) < t.n THEN Resize(t, want) ELSE t
Clear(t) == IF t.items = 0 THEN t ELSE Blank(t.n)
Capacity(t) == t.items + t.gl

(* ------------------------------ invariants ---------------------------------- *)
Mirrored(t) == /\ \A i \in 0..(t.n - 1) : t.c[Mirror(t, i)] = t.c[i]
               /\ t.n < W => \A i \in t.n..(W - 1) : t.c[i] = Empty
Counted(t)  == LET full == Cardinality({i \in 0..(t.n - 1) : Full(t, i)})
                   dead == Cardinality({i \in 0..(t.n - 1) : t.c[i] = Deleted}) IN
               t.items = full /\ t.gl >= 0 /\ t.gl = CapOf(t.n) - full - dead
SomeEmpty(t) == \E i \in 0..(t.n - 1) : t.c[i] = Empty
Findable(t) == \A i \in 0..(t.n - 1) : Full(t, i) =>
                 Find(t, t.d[i][1], t.d[i][2], t.d[i][3]) = i
Tagged(t)   == \A i \in 0..(t.n - 1) : IF Full(t, i) THEN t.d[i] # None /\ t.d[i][3] = t.c[i] ELSE t.d[i] = None
TableOk(t)  == Mirrored(t) /\ Counted(t) /\ SomeEmpty(t) /\ Tagged(t) /\ Findable(t)
==============================================================================
