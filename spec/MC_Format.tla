----------------------------- MODULE MC_Format ------------------------------
(* What Format promises, for all small directives, numbers and format        *)
(* strings: texts read back as the number they stand for, rounding is to the *)
(* nearest, fields are as wide as asked for, arguments are chosen one way.   *)
EXTENDS Format, TLC
CONSTANTS Kind, N, W, P
VARIABLES x
RECURSIVE BitsOf(_)
BitsOf(n) == IF n = 0 THEN <<>> ELSE BitsOf(n \div 2) \o <<n % 2>>
I(n) == [t |-> "i", neg |-> IF n < 0 THEN 1 ELSE 0, m |-> BitsOf(Abs(n))]
F(m, e, neg) == [t |-> "f", k |-> "fin", neg |-> neg, m |-> BitsOf(m), e |-> e]
AllFlags == {" ", "#", "+", "-", "0"}
Numbers == (-N .. N) \cup {-256, -255, 64, 255, 4095}
\* the alphabet of the format strings: percent d s 1 $ * . - < a > 2
Letters2 == <<37, 100, 115, 49, 36, 42, 46, 45, 60, 97, 62, 50>>
ArgLists == << <<>>, <<I(2)>>, <<I(2), I(5)>>, <<I(2), I(5), I(1)>>, <<[t |-> "h", kv |-> << <<<<97>>, I(7)>> >>]>> >>
\* d, *d, s; 1$d, 2$*1$d; <a>d, {a}; percent
Ways == << <<"next", <<37, 100>> >>, <<"next", <<37, 42, 100>> >>, <<"next", <<37, 115>> >>,
  <<"number", <<37, 49, 36, 100>> >>, <<"number", <<37, 50, 36, 42, 49, 36, 100>> >>,
  <<"name", <<37, 60, 97, 62, 100>> >>, <<"name", <<37, 123, 97, 125>> >>, <<"", <<37, 37>> >> >>
RECURSIVE Flat(_)
Flat(ds) == IF ds = <<>> THEN <<>> ELSE ds[1][2] \o Flat(Tail(ds))
Init == x = <<"start">>
Next ==
  \/ /\ x[1] = "start" /\ Kind = "int"
     /\ \E n \in Numbers, c \in {"d", "b", "o", "x", "X"} : x' = <<"n", n, c>>
  \/ /\ x[1] = "n"
     /\ \E fl \in SUBSET AllFlags, w \in 0..W, p \in -1..P : x' = <<"int", x[2], x[3], fl, w, p>>
  \/ /\ x[1] = "start" /\ Kind = "float"
     /\ \E m \in 0..N, e \in (-P)..4, neg \in {0, 1} : x' = <<"m", m, e, neg>>
  \/ /\ x[1] = "m"
     /\ \E c \in {"f", "e", "g", "a"}, fl \in SUBSET {"#", "+", "0", "-"}, p \in -1..4, w \in {0, W} :
          x' = <<"float", x[2], x[3], x[4], c, fl, w, p>>
  \/ /\ x[1] = "start" /\ Kind = "parse"
     /\ \E k \in 1..Len(ArgLists) : x' = <<"parse", k, <<37>> >>
  \/ /\ x[1] = "parse" /\ Len(x[3]) < P
     /\ \E j \in 1..Len(Letters2) : x' = <<"parse", x[2], Append(x[3], Letters2[j])>>
  \/ /\ x[1] = "start" /\ Kind = "parse"
     /\ \E k \in 1..Len(ArgLists) : x' = <<"ways", k, <<>> >>
  \/ /\ x[1] = "ways" /\ Len(x[3]) < P - 1
     /\ \E j \in 1..Len(Ways) : x' = <<"ways", x[2], Append(x[3], Ways[j])>>
  \/ /\ x[1] = "start" /\ Kind = "text"
     /\ \E k \in 0..N : \E s \in [1..k -> {97, 233, 12354}] : x' = <<"t", s>>
  \/ /\ x[1] = "t"
     /\ \E c \in {"s", "p", "c"}, fl \in SUBSET AllFlags, w \in 0..W, p \in -1..P : x' = <<"text", x[2], c, fl, w, p>>
Spec == Init /\ [][Next]_x

-----------------------------------------------------------------------------
(* Reading a text back.                                                      *)
Blank(s) == StripEnd(Strip(s, 32), 32)
Digit(c) == IF c < 58 THEN c - 48 ELSE IF c < 91 THEN c - 55 ELSE c - 87
RECURSIVE ReadIn(_, _, _)
ReadIn(s, b, acc) == IF s = <<>> THEN acc ELSE ReadIn(Tail(s), b, acc * b + Digit(s[1]))
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
Base(c) == IF c = "d" THEN 10 ELSE IF c = "b" THEN 2 ELSE IF c = "o" THEN 8 ELSE 16
\* a text of an integer: sign, prefix, two dots, digits
ReadInt(s, c) ==
  LET t == Blank(s)
      neg == t # <<>> /\ t[1] = 45
      t1 == IF t # <<>> /\ t[1] \in {43, 45} THEN Tail(t) ELSE t
      t2 == IF Len(t1) >= 2 /\ t1[2] \in {98, 120, 88} /\ c # "d" THEN SubSeq(t1, 3, Len(t1)) ELSE t1
      dots == Len(t2) > 2 /\ t2[1] = 46
      t3 == IF dots THEN SubSeq(t2, 3, Len(t2)) ELSE t2
      n == ReadIn(t3, Base(c), 0)
  IN IF dots THEN n - Pow(Base(c), Len(t3)) ELSE IF neg THEN -n ELSE n
IntOf == IntText(I(x[2]), x[3], x[4], x[5], x[6])
IntReads == x[1] = "int" => (Len(IntOf) < 8 => ReadInt(IntOf, x[3]) = x[2])
IntWide == x[1] = "int" => Len(IntOf) = MaxOf(x[5], Len(IntText(I(x[2]), x[3], x[4], 0, x[6])))
\* - puts the text in front, without - and 0 it is at the end
IntSide == x[1] = "int" =>
  LET t == IntText(I(x[2]), x[3], x[4], 0, x[6])
  IN /\ "-" \in x[4] => SubSeq(IntOf, 1, Len(t)) = t
     /\ x[4] \cap {"-", "0"} = {} => Last(IntOf, Len(t)) = t
     \* with a precision 0 is no flag
     /\ (x[6] >= 0 \/ "-" \in x[4]) => IntOf = IntText(I(x[2]), x[3], x[4] \ {"0"}, x[5], x[6])
     /\ "+" \in x[4] => IntOf = IntText(I(x[2]), x[3], x[4] \ {" "}, x[5], x[6])

-----------------------------------------------------------------------------
\* 10^p times the number is num/den
Num(m, e, p) == m * Pow(10, p) * (IF e > 0 THEN Pow(2, e) ELSE 1)
Den(e) == IF e < 0 THEN Pow(2, -e) ELSE 1
Near(r, num, den) == LET d == 2 * Abs(r * den - num) IN d < den \/ (d = den /\ r % 2 = 0)
Plain(s) == SelectSeq(s, LAMBDA c : c \in 48..57)
FloatOf(w) == FloatTexts(F(x[2], x[3], x[4]), x[5], x[6], w, x[8])
FloatFixed == (x[1] = "float" /\ x[5] = "f" /\ x[8] >= 0) =>
  \A t \in FloatOf(0) : Near(ReadIn(Plain(t), 10, 0), Num(x[2], x[3], x[8]), Den(x[3]))
\* d.ddd e x: one digit in front, not 0, and the nearest number of this form
FloatSci == (x[1] = "float" /\ x[5] = "e" /\ x[8] >= 0) =>
  LET r == ExpDigits(Exact(F(x[2], x[3], 0)), x[8])
      n == ReadIn([k \in 1..Len(r.ds) |-> r.ds[k] + 48], 10, 0)
  IN /\ Len(r.ds) = x[8] + 1
     /\ (r.ds[1] = 0) = (x[2] = 0)
     /\ x[2] # 0 =>
        IF r.e <= x[8] THEN Near(n, Num(x[2], x[3], x[8] - r.e), Den(x[3]))
        ELSE Near(n, Num(x[2], x[3], 0), Den(x[3]) * Pow(10, r.e - x[8]))
\* the same number as with e, in no more characters than it needs
FloatG == (x[1] = "float" /\ x[5] = "g") =>
  LET p == IF x[8] < 0 THEN 6 ELSE MaxOf(x[8], 1)
      r == ExpDigits(Exact(F(x[2], x[3], 0)), p - 1)
      t == GText(Exact(F(x[2], x[3], 0)), "g", x[6], x[8])
      sci == \E k \in 1..Len(t) : t[k] = 101
      man == IF sci THEN SubSeq(t, 1, (CHOOSE k \in 1..Len(t) : t[k] = 101) - 1) ELSE t
      sig == Strip(Plain(man), 48)
  IN /\ sci = (r.e < -4 \/ r.e >= p)
     /\ StripEnd(sig, 48) = StripEnd([k \in 1..Len(r.ds) |-> r.ds[k] + 48], 48) \/ x[2] = 0
     /\ Len(sig) <= p
     /\ "#" \in x[6] => (x[2] # 0 => Len(sig) = p) /\ \E k \in 1..Len(t) : t[k] = 46
     /\ ("#" \notin x[6] /\ \E k \in 1..Len(man) : man[k] = 46) => man[Len(man)] \notin {46, 48}
FloatWide == x[1] = "float" => \A t \in FloatOf(x[7]) : \E s \in FloatOf(0) : Len(t) = MaxOf(x[7], Len(s))
FloatSigned == x[1] = "float" =>
  \A t \in FloatOf(x[7]) : (\E k \in 1..Len(t) : t[k] = 45 /\ (k = 1 \/ t[k - 1] \in {32})) = (x[4] = 1)

-----------------------------------------------------------------------------
ParseOf == Sprintf(x[3], ArgLists[x[2]], FALSE)
Taken == x[1] = "parse" =>
  /\ ParseOf.e \in {"", "arg", "key", "mix", "twice", "type", "nomethod"}
  /\ (ParseOf.e = "") = (ParseOf.ts # {})
\* arguments are taken in order, by number or by name, never in two of these ways
OneWay == (x[1] = "ways" /\ Sprintf(Flat(x[3]), ArgLists[x[2]], FALSE).e = "") =>
  \A j, k \in 1..Len(x[3]) : x[3][j][1] \in {"", x[3][k][1]} \/ x[3][k][1] = ""
\* more arguments than are used make no difference
Spare == (x[1] = "parse" /\ x[2] \in 1..3 /\ ParseOf.e = "") => Sprintf(x[3], ArgLists[x[2] + 1], FALSE) = ParseOf
\* a literal text behind the directives is only appended
Suffix == (x[1] = "parse" /\ ParseOf.e = "") =>
  Sprintf(Append(x[3], 97), ArgLists[x[2]], FALSE) = Ok({t \o <<97>> : t \in ParseOf.ts})

-----------------------------------------------------------------------------
\* widths and precisions count characters; padding is blanks on one side
TextField == x[1] = "text" =>
  LET whole == IF x[3] = "p" THEN <<34>> \o x[2] \o <<34>> ELSE IF x[3] = "c" THEN (IF x[2] = <<>> THEN <<>> ELSE <<x[2][1]>>) ELSE x[2]
      cut == IF x[3] # "c" /\ x[6] >= 0 /\ x[6] < Len(whole) THEN x[6] ELSE Len(whole)
      r == Convert([t |-> "s", s |-> x[2]], x[3], x[4], x[5], x[6], FALSE)
  IN /\ r.e = "" /\ Cardinality(r.ts) = 1
     /\ \A t \in r.ts :
          LET n == Len(t) - cut
          IN /\ Len(t) = MaxOf(x[5], cut)
             /\ IF "-" \in x[4] THEN t = SubSeq(whole, 1, cut) \o Fill(32, n) ELSE t = Fill(32, n) \o SubSeq(whole, 1, cut)
=============================================================================
