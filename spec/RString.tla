------------------------------ MODULE RString ------------------------------
(* Ruby strings as values: a byte sequence, a declared encoding and a frozen *)
(* flag, nothing else. Everything the runtime caches or shares is absent     *)
(* here; what it answers must follow from bytes and encoding alone.          *)
(*                                                                           *)
(* Encodings: 0 ASCII-8BIT, 1 UTF-8, 2 US-ASCII, 3/4 UTF-16LE/BE, 5/6        *)
(* UTF-32LE/BE, 7 ISO-8859-1, 8 EUC-JP, 9 Shift_JIS, 10 a named encoding     *)
(* that is not ASCII compatible, 11 a named byte encoding that is.           *)
EXTENDS Integers, Sequences
Encodings == 0..11
AsciiCompatible(e) == e \notin {3, 4, 5, 6, 10}
Utf8Family(e) == e \in {1, 2}
Min(a, b) == IF a < b THEN a ELSE b
AllAscii(b) == \A i \in 1..Len(b) : b[i] < 128

(* ---- characters ---- *)
\* UTF-8 (Unicode table 3-7): how long a character led by c is, and what may
\* follow c
U8Need(c) == CASE c <= 127 -> 1 [] c \in 194..223 -> 2 [] c \in 224..239 -> 3 [] c \in 240..244 -> 4 [] OTHER -> 0
U8Second(c) == CASE c = 224 -> 160..191 [] c = 237 -> 128..159 [] c = 240 -> 144..191 [] c = 244 -> 128..143 [] OTHER -> 128..191
\* how many bytes from i on are a prefix of some character
U8Got(b, i) ==
  LET n == U8Need(b[i]) IN
  IF n <= 1 THEN n
  ELSE IF i + 1 > Len(b) THEN 1
  ELSE IF b[i + 1] \notin U8Second(b[i]) THEN 1
  ELSE IF n = 2 \/ i + 2 > Len(b) THEN 2
  ELSE IF b[i + 2] \notin 128..191 THEN 2
  ELSE IF n = 3 \/ i + 3 > Len(b) THEN 3
  ELSE IF b[i + 3] \notin 128..191 THEN 3 ELSE 4
U8Char(b, i) == IF U8Need(b[i]) > 0 /\ U8Got(b, i) = U8Need(b[i]) THEN U8Need(b[i]) ELSE 0
At(b, i, S) == i <= Len(b) /\ b[i] \in S
EucChar(b, i) ==
  CASE b[i] <= 127 -> 1
    [] b[i] = 142 -> IF At(b, i + 1, 161..223) THEN 2 ELSE 0
    [] b[i] = 143 -> IF At(b, i + 1, 161..254) /\ At(b, i + 2, 161..254) THEN 3 ELSE 0
    [] b[i] \in 161..254 -> IF At(b, i + 1, 161..254) THEN 2 ELSE 0
    [] OTHER -> 0
SjisChar(b, i) ==
  CASE b[i] \in (0..127) \cup (161..223) -> 1
    [] b[i] \in (129..159) \cup (224..252) -> IF At(b, i + 1, (64..126) \cup (128..252)) THEN 2 ELSE 0
    [] OTHER -> 0
\* length of the well-formed character at i, 0 if there is none
CharAt(e, b, i) ==
  CASE e = 1 -> U8Char(b, i)
    [] e = 2 -> IF b[i] <= 127 THEN 1 ELSE 0
    [] e \in {3, 4} -> IF i + 1 <= Len(b) THEN 2 ELSE 0
    [] e \in {5, 6} -> IF i + 3 <= Len(b) THEN 4 ELSE 0
    [] e = 8 -> EucChar(b, i)
    [] e = 9 -> SjisChar(b, i)
    [] OTHER -> 1
RECURSIVE WellFormedFrom(_, _, _)
WellFormedFrom(e, b, i) == IF i > Len(b) THEN TRUE ELSE LET w == CharAt(e, b, i) IN w > 0 /\ WellFormedFrom(e, b, i + w)
WellFormed(e, b) == WellFormedFrom(e, b, 1)
\* 1: ASCII only, 2: well formed with other characters, 3: broken
Class(e, b) ==
  IF b = <<>> \/ (AsciiCompatible(e) /\ AllAscii(b)) THEN 1
  ELSE IF WellFormed(e, b) THEN 2 ELSE 3

\* The walk by characters also has to get over broken bytes: in UTF-8 each
\* counts by itself, in EUC-JP and Shift_JIS the lead byte tells the length.
WalkAt(e, b, i) ==
  LET w == CASE e = 1 -> (IF U8Char(b, i) > 0 THEN U8Char(b, i) ELSE 1)
             [] e \in {3, 4} -> 2
             [] e \in {5, 6} -> 4
             [] e = 8 -> (IF b[i] = 143 THEN 3 ELSE IF b[i] = 142 \/ b[i] \in 161..254 THEN 2 ELSE 1)
             [] e = 9 -> (IF b[i] \in (129..159) \cup (224..252) THEN 2 ELSE 1)
             [] OTHER -> 1
  IN Min(w, Len(b) - i + 1)
RECURSIVE WalkFrom(_, _, _)
WalkFrom(e, b, i) == IF i > Len(b) THEN <<>> ELSE LET w == WalkAt(e, b, i) IN <<w>> \o WalkFrom(e, b, i + w)
\* the lengths of the characters
Walk(e, b) == WalkFrom(e, b, 1)
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE s[n] + Sum(s, n - 1)
RECURSIVE Backwards(_, _, _)
Backwards(e, b, i) == IF i > Len(b) THEN <<>> ELSE LET w == WalkAt(e, b, i) IN Backwards(e, b, i + w) \o SubSeq(b, i, i + w - 1)
RECURSIVE Times(_, _)
Times(b, n) == IF n = 0 THEN <<>> ELSE b \o Times(b, n - 1)

(* ---- combining two strings ---- *)
None == -1
Compatible(x, y) ==
  CASE x.e = y.e -> x.e
    [] x.e # y.e /\ y.b = <<>> -> x.e
    [] x.e # y.e /\ y.b # <<>> /\ x.b = <<>> -> IF AsciiCompatible(x.e) /\ y.c = 1 THEN x.e ELSE y.e
    [] OTHER ->
       IF ~AsciiCompatible(x.e) \/ ~AsciiCompatible(y.e) THEN None
       ELSE IF y.c = 1 THEN x.e
       ELSE IF x.c = 1 THEN y.e ELSE None

(* ---- replacing what is broken ---- *)
\* In UTF-8 every maximal part that might have begun a character gets one
\* replacement; elsewhere every byte that begins none.
RECURSIVE ScrubFrom(_, _, _, _)
ScrubFrom(e, b, i, r) ==
  IF i > Len(b) THEN <<>>
  ELSE LET w == CharAt(e, b, i) IN
       IF w > 0 THEN SubSeq(b, i, i + w - 1) \o ScrubFrom(e, b, i + w, r)
       ELSE LET g == IF e = 1 THEN (IF U8Got(b, i) = 0 THEN 1 ELSE U8Got(b, i)) ELSE 1
            IN r \o ScrubFrom(e, b, i + g, r)
Scrub(x, r) == IF x.c < 3 \/ x.e \notin {1, 2, 8, 9} THEN x.b ELSE ScrubFrom(x.e, x.b, 1, r)

(* ---- the first scalar of well-formed UTF-8 ---- *)
Scalar(b) ==
  CASE U8Need(b[1]) = 1 -> b[1]
    [] U8Need(b[1]) = 2 -> (b[1] - 192) * 64 + b[2] - 128
    [] U8Need(b[1]) = 3 -> (b[1] - 224) * 4096 + (b[2] - 128) * 64 + b[3] - 128
    [] OTHER -> (b[1] - 240) * 262144 + (b[2] - 128) * 4096 + (b[3] - 128) * 64 + b[4] - 128
RECURSIVE LexCmp(_, _, _)
LexCmp(a, b, i) ==
  IF i > Len(a) /\ i > Len(b) THEN 0
  ELSE IF i > Len(a) THEN -1
  ELSE IF i > Len(b) THEN 1
  ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE LexCmp(a, b, i + 1)

(* ---- histories over numbered strings ---- *)
Str(e, b) == [e |-> e, b |-> b, f |-> FALSE, c |-> Class(e, b)]
Tail2(s, n) == SubSeq(s, n, Len(s))
Ok == <<"ok", <<>>>>
Err == <<"err", <<>>>>
Put(st, d, x) == [k \in (DOMAIN st) \cup {d} |-> IF k = d THEN x ELSE st[k]]
\* op -> [s: the strings afterwards, r: the answer]
Step(st, o) ==
  LET a == o[2]
      n == o[1]
      x == st[a[1]]
      y == st[a[2]]
      Same(r) == [s |-> st, r |-> r]
      New(z) == [s |-> Put(st, a[1], z), r |-> Ok]
      Bytes(b) == [s |-> Put(st, a[1], Str(x.e, b)), r |-> Ok]
  IN CASE n = "new" ->
            LET b == Tail2(a, 4) IN
            New(Str(IF a[2] = 2 THEN (IF WellFormed(1, b) THEN 1 ELSE 0) ELSE a[3], b))
       [] n \in {"sub", "subc"} -> New(Str(y.e, SubSeq(y.b, a[3] + 1, a[4])))
       [] n = "dup" -> New([y EXCEPT !.f = FALSE])
       [] n = "snap" -> New([y EXCEPT !.f = TRUE])
       [] n = "freeze" -> [s |-> Put(st, a[1], [x EXCEPT !.f = TRUE]), r |-> Ok]
       [] n \in {"share", "detach", "nul"} -> Same(Ok)
       [] n \in {"gc", "stress"} -> Same(Ok)
       [] n = "drop" -> [s |-> [k \in (DOMAIN st) \ {a[1]} |-> st[k]], r |-> Ok]
       [] n = "setb" -> Bytes([x.b EXCEPT ![a[2] + 1] = a[3]])
       [] n = "setenc" -> [s |-> Put(st, a[1], Str(a[2], x.b)), r |-> Ok]
       [] n = "ext" ->
            IF y.b = <<>> THEN Same(Ok)
            ELSE IF Compatible(x, y) = None THEN Same(Err)
            ELSE [s |-> Put(st, a[1], Str(Compatible(x, y), x.b \o y.b)), r |-> Ok]
       [] n = "extc" ->
            IF Utf8Family(x.e) /\ ~WellFormed(1, Tail2(a, 2)) THEN Same(Err) ELSE Bytes(x.b \o Tail2(a, 2))
       [] n \in {"extn", "extm"} -> Bytes(x.b \o Tail2(a, 2))
       [] n = "splice" ->
            \* [string, start, length, with]
            LET z == st[a[4]]
                e == Compatible(x, z)
                b == SubSeq(x.b, 1, a[2]) \o z.b \o SubSeq(x.b, a[2] + a[3] + 1, Len(x.b))
            IN IF e = None THEN Same(Err)
               \* what would no longer be text becomes binary
               ELSE [s |-> Put(st, a[1], Str(IF Utf8Family(e) /\ Class(e, b) = 3 THEN 0 ELSE e, b)), r |-> Ok]
       [] n = "rep" -> New(Str(y.e, Times(y.b, a[3])))
       [] n = "rev" -> New(Str(y.e, Backwards(y.e, y.b, 1)))
       [] n = "scrub" -> New(Str(y.e, Scrub(y, st[a[3]].b)))
       [] n = "range" -> [s |-> st, r |-> <<"range", <<>>>>]
       \* questions
       [] n = "class" -> Same(<<"val", <<x.c>>>>)
       [] n = "len" -> Same(<<"val", <<Len(Walk(x.e, x.b))>>>>)
       [] n = "chars" -> Same(<<"val", Walk(x.e, x.b)>>)
       [] n = "ci" ->
            LET l == Len(Walk(x.e, x.b))
                p == IF a[2] < 0 THEN l + a[2] ELSE a[2]
            IN Same(IF p < 0 \/ p > l THEN <<"none", <<>>>> ELSE <<"val", <<p>>>>)
       [] n = "ci2" ->
            LET l == Len(Walk(x.e, x.b))
                p == IF a[2] < 0 THEN l + a[2] ELSE a[2]
            IN Same(IF l = 0 /\ a[2] = -1 THEN <<"val", <<0>>>> ELSE IF p < 0 THEN <<"none", <<>>>> ELSE <<"val", <<p>>>>)
       [] n = "b2c" ->
            LET w == Walk(1, x.b)
                K == {k \in 0..(Len(w) - 1) : Sum(w, k) = a[2]}
            IN Same(IF ~WellFormed(1, x.b) \/ K = {} THEN Err ELSE <<"val", <<CHOOSE k \in K : TRUE>>>>)
       [] n = "compat" -> Same(IF Compatible(x, y) = None THEN <<"none", <<>>>> ELSE <<"val", <<Compatible(x, y)>>>>)
       [] n = "cmp" -> Same(<<"val", <<LexCmp(x.b, y.b, 1), IF x.b = y.b THEN 1 ELSE 0>>>>)
       [] n = "first" ->
            Same(IF x.b = <<>> THEN Err
                 ELSE IF ~Utf8Family(x.e) THEN <<"val", <<x.b[1]>>>>
                 ELSE IF ~WellFormed(1, x.b) THEN Err ELSE <<"val", <<Scalar(x.b)>>>>)
       [] n = "utf8" -> Same(IF WellFormed(1, x.b) THEN Ok ELSE Err)
       [] n = "mapped" -> Same(<<"val", <<IF x.e \in {0, 7, 8, 9, 10, 11} /\ x.c # 1 THEN 1 ELSE 0>>>>)
\* character range -> byte range; an index past the end has some empty range
RangeOk(x, i, l, r) ==
  LET w == Walk(x.e, x.b) IN
  IF i > Len(w) THEN r[1] = r[2] /\ r[1] \in 0..Len(x.b)
  ELSE r = <<Sum(w, i), Sum(w, Min(i + l, Len(w)))>>
=============================================================================
