-------------------------------- MODULE Pack --------------------------------
(* Array#pack and String#unpack as functions. A template is a sequence of     *)
(* directives <<letter, modifiers, count>>: modifiers 1 for <, 2 for >, plus  *)
(* 4 for !; count -1 for *, -2 for none given, -3 for one beyond the machine. *)
(* A value is <<kind, bytes>>: kind 0 an integer as 80 bits of two's          *)
(* complement, least byte first; 1 a string; 2 nil; 3 a float as its eight    *)
(* bytes, greatest first; 4 a string of US-ASCII.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Star == -1
None == -2
Huge == -3
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Fill(n, b) == [k \in 1..n |-> b]
Take(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Pow2 == <<1,2,4,8,16,32,64,128,256,512,1024,2048,4096,8192,16384,32768,65536,131072,262144,524288,1048576,
          2097152,4194304,8388608,16777216,33554432,67108864,134217728,268435456,536870912,1073741824>>
P2(n) == Pow2[n + 1]
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

--------------------------------------------------------------- \* integers
SignedInts == {"c", "s", "i", "l", "q", "j"}
UnsignedInts == {"C", "S", "I", "L", "Q", "J", "v", "V", "n", "N"}
Ints == SignedInts \cup UnsignedInts
Native(d) == d[2] >= 4
Greatest(d) == d[1] \in {"n", "N", "g", "G"} \/ d[2] % 4 = 2
Width(d) == CASE d[1] \in {"c", "C"} -> 1
              [] d[1] \in {"s", "S", "v", "n"} -> 2
              [] d[1] \in {"i", "I", "V", "N"} -> 4
              [] d[1] \in {"l", "L"} -> IF Native(d) THEN 8 ELSE 4
              [] OTHER -> 8
Negative(v) == v[10] >= 128
IntBytes(d, v) == LET b == SubSeq(v, 1, Width(d)) IN IF Greatest(d) THEN Rev(b) ELSE b
\* sign or zero extended to 80 bits
IntOf(d, b) == LET l == IF Greatest(d) THEN Rev(b) ELSE b
               IN l \o Fill(10 - Len(l), IF d[1] \in SignedInts /\ l[Len(l)] >= 128 THEN 255 ELSE 0)
Bit(v, k) == IF k >= 80 THEN (IF Negative(v) THEN 1 ELSE 0) ELSE (v[(k \div 8) + 1] \div P2(k % 8)) % 2
\* the n bits from bit k on
Bits(v, k, n) == LET RECURSIVE Sum(_)
                     Sum(j) == IF j = n THEN 0 ELSE Bit(v, k + j) * P2(j) + Sum(j + 1)
                 IN Sum(0)
\* how many bits a number that is not negative has
Size(v) == LET S == {k \in 0..79 : Bit(v, k) = 1} IN IF S = {} THEN 0 ELSE MaxOf(S) + 1
\* the 80 bits of a row of groups of w bits, least first
FromGroups(g, w, sign) ==
  LET B(k) == IF k >= w * Len(g) THEN sign ELSE (g[(k \div w) + 1] \div P2(k % w)) % 2
  IN [y \in 1..10 |-> LET RECURSIVE Sum(_)
                          Sum(j) == IF j = 8 THEN 0 ELSE B(8 * (y - 1) + j) * P2(j) + Sum(j + 1)
                      IN Sum(0)]
Small(n) == FromGroups(<<n % 32768, n \div 32768>>, 15, 0)
--------------------------------------------------- \* integers of any length
Sevens(v) == LET n == Size(v) IN IF n = 0 THEN 1 ELSE (n + 6) \div 7
Ber(v) == LET n == Sevens(v) IN [k \in 1..n |-> Bits(v, 7 * (n - k), 7) + (IF k < n THEN 128 ELSE 0)]
Uleb(v) == LET n == Sevens(v) IN [k \in 1..n |-> Bits(v, 7 * (k - 1), 7) + (IF k < n THEN 128 ELSE 0)]
\* as few groups as leave the sign in the last one
Sleb(v) == LET s == Bit(v, 79)
               n == MinOf({m \in 1..11 : \A k \in (7 * m - 1)..79 : Bit(v, k) = s})
           IN [k \in 1..n |-> Bits(v, 7 * (k - 1), 7) + (IF k < n THEN 128 ELSE 0)]
\* where the first group without a successor is, 0 for nowhere
Last7(b) == LET S == {k \in 1..Len(b) : b[k] < 128} IN IF S = {} THEN 0 ELSE MinOf(S)
Groups(b) == [k \in 1..Len(b) |-> b[k] % 128]
---------------------------------------------------------------- \* UTF-8
\* the old form of up to six bytes
Utf8Len(v) == LET n == Size(v) IN IF n <= 7 THEN 1 ELSE IF n <= 11 THEN 2 ELSE IF n <= 16 THEN 3
                                  ELSE IF n <= 21 THEN 4 ELSE IF n <= 26 THEN 5 ELSE 6
Lead == <<0, 192, 224, 240, 248, 252>>
Utf8(v) == LET n == Utf8Len(v)
           IN <<Lead[n] + Bits(v, 6 * (n - 1), IF n = 1 THEN 7 ELSE 7 - n)>>
              \o [k \in 1..(n - 1) |-> 128 + Bits(v, 6 * (n - 1 - k), 6)]
\* the first character: its length (0 malformed) and its number
Utf8First(b) ==
  LET c == b[1]
      n == IF c < 128 THEN 1 ELSE IF c < 192 THEN 0 ELSE IF c < 224 THEN 2 ELSE IF c < 240 THEN 3
           ELSE IF c < 248 THEN 4 ELSE IF c < 252 THEN 5 ELSE IF c < 254 THEN 6 ELSE 0
      v == IF n = 1 THEN Small(c)
           ELSE FromGroups([k \in 1..n |-> IF k = n THEN c - Lead[n] ELSE b[n + 1 - k] % 64], 6, 0)
  IN IF n = 0 \/ n > Len(b) THEN [n |-> 0]
     ELSE IF \E k \in 2..n : b[k] \div 64 # 2 THEN [n |-> 0]
     ELSE IF Utf8Len(v) # n THEN [n |-> 0]
     ELSE [n |-> n, v |-> v]
---------------------------------------------------------------- \* floats
Doubles == {"d", "D", "E", "G"}
Singles == {"f", "F", "e", "g"}
Floats == Doubles \cup Singles
\* nearest, ties to even; not for results below the normal numbers
ToSingle(b) ==
  LET s == b[1] \div 128
      e == (b[1] % 128) * 16 + b[2] \div 16
      m == (b[2] % 16) * 524288 + b[3] * 2048 + b[4] * 8 + b[5] \div 32
      r == (b[5] % 32) * 16777216 + b[6] * 65536 + b[7] * 256 + b[8]
      up == r > 268435456 \/ (r = 268435456 /\ m % 2 = 1)
      x == IF e = 0 THEN 0 ELSE IF e - 896 >= 255 THEN 255 * 8388608
           ELSE (e - 896) * 8388608 + m + (IF up THEN 1 ELSE 0)
  IN <<s * 128 + x \div 16777216, (x \div 65536) % 256, (x \div 256) % 256, x % 256>>
ToDouble(b) ==
  LET s == b[1] \div 128
      e == (b[1] % 128) * 2 + b[2] \div 128
      m == (b[2] % 128) * 65536 + b[3] * 256 + b[4]
      top == MaxOf({k \in 0..22 : m >= P2(k)})
      E == IF e = 255 THEN 2047 ELSE IF e > 0 THEN e + 896 ELSE IF m = 0 THEN 0 ELSE top + 874
      M == IF e > 0 \/ m = 0 THEN m ELSE (m - P2(top)) * P2(23 - top)
  IN <<s * 128 + E \div 16, (E % 16) * 16 + M \div 524288, (M \div 2048) % 256, (M \div 8) % 256, (M % 8) * 32, 0, 0, 0>>
NotANumber(b) == Len(b) = 8 /\ (b[1] % 128) * 16 + b[2] \div 16 = 2047 /\ (b[2] % 16 # 0 \/ \E k \in 3..8 : b[k] # 0)
SameFloat(x, y) == x = y \/ (NotANumber(x) /\ NotANumber(y))
-------------------------------------------------- \* bits and hexadecimals
RECURSIVE BitBytes(_, _)
BitBytes(d, s) ==
  IF s = <<>> THEN <<>>
  ELSE LET z == Take(s, 8)
           RECURSIVE Sum(_)
           Sum(k) == IF k > Len(z) THEN 0 ELSE (z[k] % 2) * P2(IF d[1] = "B" THEN 8 - k ELSE k - 1) + Sum(k + 1)
       IN <<Sum(1)>> \o BitBytes(d, Drop(s, 8))
Letter(c) == c \in 65..90 \/ c \in 97..122
Nibble(c) == IF Letter(c) THEN (c + 9) % 16 ELSE c % 16
RECURSIVE HexBytes(_, _)
HexBytes(d, s) ==
  IF s = <<>> THEN <<>>
  ELSE LET x == Nibble(s[1])
           y == IF Len(s) > 1 THEN Nibble(s[2]) ELSE 0
       IN <<IF d[1] = "H" THEN x * 16 + y ELSE y * 16 + x>> \o HexBytes(d, Drop(s, 2))
Digit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
RECURSIVE HexText(_, _)
HexText(d, s) ==
  IF s = <<>> THEN <<>>
  ELSE LET x == Digit(s[1] \div 16)
           y == Digit(s[1] % 16)
       IN (IF d[1] = "H" THEN <<x, y>> ELSE <<y, x>>) \o HexText(d, Tail(s))
RECURSIVE BitText(_, _)
BitText(d, s) == IF s = <<>> THEN <<>>
                 ELSE [k \in 1..8 |-> 48 + ((s[1] \div P2(IF d[1] = "B" THEN 8 - k ELSE k - 1)) % 2)] \o BitText(d, Tail(s))
------------------------------------------------- \* base 64 and uuencode
Char64(n) == IF n < 26 THEN 65 + n ELSE IF n < 52 THEN 71 + n ELSE IF n < 62 THEN n - 4 ELSE IF n = 62 THEN 43 ELSE 47
Code64(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4
             ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1
Pad == 61
NL == 10
Sextets(z) == LET a == z[1]
                  b == IF Len(z) > 1 THEN z[2] ELSE 0
                  c == IF Len(z) > 2 THEN z[3] ELSE 0
              IN <<a \div 4, (a % 4) * 16 + b \div 16, (b % 16) * 4 + c \div 64, c % 64>>
RECURSIVE Groups64(_)
Groups64(s) ==
  IF s = <<>> THEN <<>>
  ELSE LET z == Take(s, 3)
           x == Sextets(z)
       IN [k \in 1..4 |-> IF k <= Len(z) + 1 THEN Char64(x[k]) ELSE Pad] \o Groups64(Drop(s, 3))
CharU(n) == IF n = 0 THEN 96 ELSE n + 32
RECURSIVE GroupsU(_)
GroupsU(s) == IF s = <<>> THEN <<>>
              ELSE LET x == Sextets(Take(s, 3)) IN [k \in 1..4 |-> CharU(x[k])] \o GroupsU(Drop(s, 3))
PerLine(n, most) == IF n <= 2 THEN 45 ELSE IF n > most THEN most ELSE 3 * (n \div 3)
RECURSIVE Lines64(_, _)
Lines64(s, n) == IF s = <<>> THEN <<>> ELSE Groups64(Take(s, n)) \o <<NL>> \o Lines64(Drop(s, n), n)
RECURSIVE LinesU(_, _)
LinesU(s, n) == IF s = <<>> THEN <<>>
                ELSE LET z == Take(s, n) IN <<Len(z) + 32>> \o GroupsU(z) \o <<NL>> \o LinesU(Drop(s, n), n)
Base64(s, count) == IF count = 0 THEN Groups64(s) ELSE Lines64(s, PerLine(count, 1000000))
Uu(s, count) == LinesU(s, PerLine(count, 63))
\* what is left after the first character of the alphabet, and that character
RECURSIVE Seek(_, _)
Seek(s, stop) == IF s = <<>> THEN [c |-> -1, s |-> s]
                 ELSE IF Code64(s[1]) >= 0 THEN [c |-> Code64(s[1]), s |-> Tail(s)]
                 ELSE IF stop /\ s[1] = Pad THEN [c |-> -1, s |-> <<>>]
                 ELSE Seek(Tail(s), stop)
RECURSIVE From64(_)
From64(s) ==
  LET a == Seek(s, FALSE)
      b == Seek(a.s, FALSE)
      c == Seek(b.s, TRUE)
      d == Seek(c.s, TRUE)
      x == a.c * 4 + b.c \div 16
      y == (b.c % 16) * 16 + c.c \div 4
      z == (c.c % 4) * 64 + d.c
  IN IF a.c < 0 \/ b.c < 0 THEN <<>> ELSE IF c.c < 0 THEN <<x>> ELSE IF d.c < 0 THEN <<x, y>> ELSE <<x, y, z>> \o From64(d.s)
\* with the count 0 nothing but what the packing with 0 gives is taken
Strict64(s) == Groups64(From64(s)) = s
RECURSIVE FromU4(_)
FromU4(s) == IF Len(s) < 4 THEN <<>>
             ELSE LET x == [k \in 1..4 |-> (s[k] - 32) % 64]
                  IN <<x[1] * 4 + x[2] \div 16, (x[2] % 16) * 16 + x[3] \div 4, (x[3] % 4) * 64 + x[4]>> \o FromU4(Drop(s, 4))
\* only for what packing gives
RECURSIVE FromU(_)
FromU(s) == IF s = <<>> THEN <<>>
            ELSE LET n == s[1] - 32
                     w == 4 * ((n + 2) \div 3)
                 IN Take(FromU4(SubSeq(s, 2, w + 1)), n) \o FromU(Drop(s, w + 2))
--------------------------------------------------------- \* quoted-printable
\* only for text without stray signs of equality
Hex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
RECURSIVE FromQ(_)
FromQ(s) == IF s = <<>> THEN <<>>
            ELSE IF s[1] # 61 THEN <<s[1]>> \o FromQ(Tail(s))
            ELSE IF Len(s) >= 2 /\ s[2] = NL THEN FromQ(Drop(s, 2))
            ELSE IF Len(s) >= 3 /\ s[2] = 13 /\ s[3] = NL THEN FromQ(Drop(s, 3))
            ELSE <<Hex(s[2]) * 16 + Hex(s[3])>> \o FromQ(Drop(s, 3))
\* which text may stand for the data: printable, ended by a newline, of short
\* lines without trailing blanks, and leading back to the data
QuotedOk(s, limit, data) ==
  /\ \A k \in 1..Len(s) : s[k] \in (32..126) \cup {9, NL}
  /\ (s # <<>> => s[Len(s)] = NL)
  /\ \A k \in 1..(Len(s) - 1) : s[k] \in {9, 32} => s[k + 1] # NL
  /\ LET ends == {0} \cup {k \in 1..Len(s) : s[k] = NL}
     IN \A k \in ends : \A j \in ends : (k < j /\ \A i \in ends : ~(k < i /\ i < j)) => j - k <= limit + 5
  /\ \A k \in 1..Len(s) : s[k] = 61 =>
       \/ k < Len(s) /\ s[k + 1] = NL
       \/ k + 1 < Len(s) /\ s[k + 1] \in (48..57) \cup (65..70) /\ s[k + 2] \in (48..57) \cup (65..70)
  /\ FromQ(s) = data
------------------------------------------------------------- \* templates
Strings == {"a", "A", "Z"}
Bitties == {"b", "B"}
Hexes == {"h", "H"}
Texts == {"m", "M", "u", "U"}
Letters == Ints \cup Floats \cup Strings \cup Bitties \cup Hexes \cup Texts \cup {"w", "R", "r", "x", "X", "@", "^"}
Modifiable == {"s", "S", "i", "I", "l", "L", "q", "Q", "j", "J"}
\* "" or the error a template is refused with
Refused(t) == IF \E k \in 1..Len(t) : t[k][1] \notin Letters \/ (t[k][2] # 0 /\ t[k][1] \notin Modifiable) THEN "argument"
              ELSE IF \E k \in 1..Len(t) : t[k][3] = Huge THEN "range" ELSE ""
Count(d) == IF d[3] = None THEN 1 ELSE d[3]
--------------------------------------------------------------- \* packing
\* st: bytes b, values used k, error e
Fail(st, e) == [st EXCEPT !.e = e]
IsInt(v) == v[1] = 0
One(st, d, v) ==   \* one number
  CASE d[1] \in Ints -> IF IsInt(v) THEN [st EXCEPT !.b = @ \o IntBytes(d, v[2])] ELSE Fail(st, "type")
    [] d[1] \in Floats -> IF v[1] # 3 THEN Fail(st, "type")
                          ELSE LET x == IF d[1] \in Doubles THEN v[2] ELSE ToSingle(v[2])
                               IN [st EXCEPT !.b = @ \o (IF Greatest(d) THEN x ELSE Rev(x))]
    [] d[1] = "U" -> IF ~IsInt(v) THEN Fail(st, "type") ELSE IF Negative(v[2]) \/ Size(v[2]) > 31 THEN Fail(st, "range")
                     ELSE [st EXCEPT !.b = @ \o Utf8(v[2])]
    [] d[1] = "w" -> IF ~IsInt(v) THEN Fail(st, "type") ELSE IF Negative(v[2]) THEN Fail(st, "argument")
                     ELSE [st EXCEPT !.b = @ \o Ber(v[2])]
    [] d[1] = "R" -> IF IsInt(v) THEN [st EXCEPT !.b = @ \o Uleb(v[2])] ELSE Fail(st, "type")
    [] OTHER -> IF IsInt(v) THEN [st EXCEPT !.b = @ \o Sleb(v[2])] ELSE Fail(st, "type")
RECURSIVE Many(_, _, _, _)
Many(st, d, vals, n) ==
  IF n = 0 \/ st.e # "" THEN st
  ELSE IF st.k >= Len(vals) THEN Fail(st, "argument")
  ELSE Many([One(st, d, vals[st.k + 1]) EXCEPT !.k = @ + 1], d, vals, n - 1)
Padded(s, n, b) == IF Len(s) >= n THEN Take(s, n) ELSE s \o Fill(n - Len(s), b)
\* one string; "M" has more than one answer: the bytes are left to m
Text(st, d, v, m) ==
  LET c == Count(d)
      s == v[2]
      star == c = Star
  IN IF v[1] \notin {1, 2} \/ (v[1] = 2 /\ d[1] \in {"m", "u"}) THEN Fail(st, "type")
     ELSE [st EXCEPT !.b = @ \o
       (CASE d[1] = "a" -> IF star THEN s ELSE Padded(s, c, 0)
          [] d[1] = "A" -> IF star THEN s ELSE Padded(s, c, 32)
          [] d[1] = "Z" -> IF star THEN s \o <<0>> ELSE Padded(s, c, 0)
          [] d[1] \in Bitties -> BitBytes(d, IF star THEN s ELSE Take(s, c))
          [] d[1] \in Hexes -> HexBytes(d, IF star THEN s ELSE Padded(s, c, 48))
          [] d[1] = "m" -> Base64(s, IF star THEN 1 ELSE c)
          [] d[1] = "u" -> Uu(s, IF star THEN 0 ELSE c)
          [] OTHER -> m)]
Move(st, d) ==
  LET c == IF Count(d) = Star THEN 0 ELSE Count(d)
  IN CASE d[1] = "x" -> [st EXCEPT !.b = @ \o Fill(c, 0)]
       [] d[1] = "X" -> IF c > Len(st.b) THEN Fail(st, "argument") ELSE [st EXCEPT !.b = SubSeq(@, 1, Len(@) - c)]
       [] OTHER -> [st EXCEPT !.b = Padded(@, c, 0)]
Moves == {"x", "X", "@"}
Texty == Strings \cup Bitties \cup Hexes \cup {"m", "M", "u"}
PackOne(st, d, vals, m) ==
  IF d[1] \in Moves THEN Move(st, d)
  ELSE IF d[1] \in Texty
    THEN (IF st.k >= Len(vals) THEN Fail(st, "argument")
          ELSE Text([st EXCEPT !.k = @ + 1], d, vals[st.k + 1], m))
  ELSE Many(st, d, vals, IF Count(d) = Star THEN Len(vals) - st.k ELSE Count(d))
RECURSIVE PackFrom(_, _, _, _)
PackFrom(st, t, vals, m) == IF t = <<>> \/ st.e # "" THEN st ELSE PackFrom(PackOne(st, Head(t), vals, m), Tail(t), vals, m)
PackM(t, vals, buf, m) == IF Refused(t) # "" THEN [b |-> buf, k |-> 0, e |-> Refused(t)]
                          ELSE PackFrom([b |-> buf, k |-> 0, e |-> ""], t, vals, m)
PackAll(t, vals, buf) == PackM(t, vals, buf, <<>>)
\* 0 binary, 1 UTF-8, 2 US-ASCII
Encoding(t) == LET L == {t[k][1] : k \in 1..Len(t)}
               IN IF L \ Texts # {} THEN 0 ELSE IF "U" \in L THEN 1 ELSE 2
------------------------------------------------------------- \* unpacking
\* st: position p, values v, error e
Num(v) == <<0, v>>
Str(b) == <<1, b>>
Ascii(b) == <<4, b>>
Nil == <<2, <<>>>>
Push(st, n, v) == [st EXCEPT !.p = @ + n, !.v = Append(@, v)]
RECURSIVE Fixed(_, _, _, _)
Fixed(st, b, d, n) ==
  LET w == IF d[1] \in Doubles THEN 8 ELSE IF d[1] \in Singles THEN 4 ELSE Width(d)
      z == SubSeq(b, st.p + 1, st.p + w)
      y == IF Greatest(d) THEN z ELSE Rev(z)
      v == IF d[1] \in Ints THEN Num(IntOf(d, z)) ELSE <<3, IF d[1] \in Doubles THEN y ELSE ToDouble(y)>>
  IN IF n = 0 THEN st
     ELSE IF st.p + w <= Len(b) THEN Fixed(Push(st, w, v), b, d, n - 1)
     ELSE IF n < 0 THEN st ELSE Fixed(Push(st, 0, Nil), b, d, n - 1)
RECURSIVE Varied(_, _, _, _)
Varied(st, b, d, n) ==
  LET z == Drop(b, st.p)
      l == Last7(z)
      g == Groups(Take(z, l))
      u == Utf8First(z)
  IN IF n = 0 \/ z = <<>> THEN st
     ELSE IF d[1] = "U" THEN (IF u.n = 0 THEN Fail(st, "argument") ELSE Varied(Push(st, u.n, Num(u.v)), b, d, n - 1))
     ELSE IF l = 0 THEN Fail(st, "incomplete")
     ELSE LET v == CASE d[1] = "w" -> FromGroups(Rev(g), 7, 0)
                     [] d[1] = "R" -> FromGroups(g, 7, 0)
                     [] OTHER -> FromGroups(g, 7, IF g[l] >= 64 THEN 1 ELSE 0)
          IN Varied(Push(st, l, Num(v)), b, d, n - 1)
First(s, x) == LET S == {k \in 1..Len(s) : s[k] = x} IN IF S = {} THEN Len(s) + 1 ELSE MinOf(S)
Trimmed(s) == LET S == {k \in 1..Len(s) : s[k] \notin {0, 32}} IN IF S = {} THEN <<>> ELSE Take(s, MaxOf(S))
UnpackOne(st, b, d, base) ==
  LET c == Count(d)
      star == c = Star
      z == Drop(b, st.p)
      f == IF star THEN z ELSE Take(z, c)
      nul == First(f, 0)
      bits == IF star \/ c > 8 * Len(z) THEN 8 * Len(z) ELSE c
      nibs == IF star \/ c > 2 * Len(z) THEN 2 * Len(z) ELSE c
  IN CASE d[1] \in Ints \cup Floats -> Fixed(st, b, d, c)
       [] d[1] \in {"U", "w", "R", "r"} -> Varied(st, b, d, c)
       [] d[1] = "a" -> Push(st, Len(f), Str(f))
       [] d[1] = "A" -> Push(st, Len(f), Str(Trimmed(f)))
       [] d[1] = "Z" -> Push(st, IF star /\ nul <= Len(f) THEN nul ELSE Len(f), Str(Take(f, nul - 1)))
       [] d[1] \in Bitties -> LET n == (bits + 7) \div 8 IN Push(st, n, Ascii(Take(BitText(d, Take(z, n)), bits)))
       [] d[1] \in Hexes -> LET n == (nibs + 1) \div 2 IN Push(st, n, Ascii(Take(HexText(d, Take(z, n)), nibs)))
       [] d[1] = "m" -> IF c = 0 /\ ~Strict64(z) THEN Fail(st, "argument") ELSE Push(st, Len(z), Str(From64(z)))
       [] d[1] = "M" -> Push(st, Len(z), Str(FromQ(z)))
       [] d[1] = "u" -> Push(st, Len(z), Str(FromU(z)))
       [] d[1] = "x" -> IF star THEN [st EXCEPT !.p = Len(b)]
                        ELSE IF c > Len(z) THEN Fail(st, "argument") ELSE [st EXCEPT !.p = @ + c]
       [] d[1] = "X" -> LET n == IF star THEN Len(z) ELSE c
                        IN IF n > st.p THEN Fail(st, "argument") ELSE [st EXCEPT !.p = @ - n]
       [] d[1] = "@" -> IF c > Len(b) THEN Fail(st, "argument") ELSE [st EXCEPT !.p = c]
       [] OTHER -> Push(st, 0, Num(Small(base + st.p)))
RECURSIVE UnpackFrom(_, _, _, _, _)
UnpackFrom(st, b, t, once, base) ==
  IF t = <<>> \/ st.e # "" \/ (once /\ st.v # <<>>) THEN st
  ELSE LET d == Head(t)
           \* of numbers of any length only the first is looked at
           d1 == IF once /\ d[1] \in {"U", "w"} /\ d[3] # 0 THEN <<d[1], d[2], 1>> ELSE d
       IN UnpackFrom(UnpackOne(st, b, d1, base), b, Tail(t), once, base)
Unpack(b, t, once, base) == IF Refused(t) # "" THEN [p |-> 0, v |-> <<>>, e |-> Refused(t)]
                            ELSE UnpackFrom([p |-> 0, v |-> <<>>, e |-> ""], b, t, once, base)
=============================================================================
