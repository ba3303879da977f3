------------------------------- MODULE Format -------------------------------
(* sprintf: what a format string and its arguments are turned into.          *)
(* Texts are sequences of character codes. An argument is a record: an       *)
(* integer [t |-> "i", neg, m] and a finite float [t |-> "f", k |-> "fin",   *)
(* neg, m, e] (the number m * 2^e) with their magnitude m as bits, a string  *)
(* [t |-> "s", s] or a hash [t |-> "h", kv] from names to arguments.         *)
EXTENDS Integers, Sequences, FiniteSets
Fill(c, n) == IF n <= 0 THEN <<>> ELSE [k \in 1..n |-> c]
Last(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))
MaxOf(a, b) == IF a > b THEN a ELSE b
RECURSIVE Strip(_, _)
Strip(s, d) == IF Len(s) > 0 /\ s[1] = d THEN Strip(Tail(s), d) ELSE s
RECURSIVE StripEnd(_, _)
StripEnd(s, d) == IF Len(s) > 0 /\ s[Len(s)] = d THEN StripEnd(SubSeq(s, 1, Len(s) - 1), d) ELSE s

-----------------------------------------------------------------------------
(* Natural numbers as four decimal digits a place, lowest place first.       *)
RECURSIVE Scale(_, _, _, _)
Scale(n, k, m, c) ==
  IF k > Len(n) THEN IF c = 0 THEN <<>> ELSE <<c % 10000>> \o Scale(n, k, m, c \div 10000)
  ELSE LET x == n[k] * m + c IN <<x % 10000>> \o Scale(n, k + 1, m, x \div 10000)
Times(n, m) == Scale(n, 1, m, 0)
RECURSIVE Power(_, _, _, _)
\* n * b^k, c = b^5
Power(n, b, c, k) == IF k = 0 THEN n ELSE IF k >= 5 THEN Power(Times(n, c), b, c, k - 5) ELSE Power(Times(n, b), b, c, k - 1)
RECURSIVE FromBits(_, _, _)
FromBits(b, k, n) == IF k > Len(b) THEN n ELSE FromBits(b, k + 1, Scale(n, 1, 2, b[k]))
\* its decimal digits, highest first; none for 0
RECURSIVE Places(_, _)
Places(n, k) == IF k = 0 THEN <<>> ELSE <<n[k] \div 1000, (n[k] \div 100) % 10, (n[k] \div 10) % 10, n[k] % 10>> \o Places(n, k - 1)
Digits(n) == Strip(Places(n, Len(n)), 0)
Decimal(bits) == LET d == Digits(FromBits(bits, 1, <<>>)) IN IF d = <<>> THEN <<0>> ELSE d

\* d + 1 in base b, digits highest first
RECURSIVE Inc(_, _)
Inc(d, b) == IF d = <<>> THEN <<1>>
             ELSE LET h == SubSeq(d, 1, Len(d) - 1)
                  IN IF d[Len(d)] = b - 1 THEN Inc(h, b) \o <<0>> ELSE h \o <<d[Len(d)] + 1>>
Zeros(s) == \A k \in 1..Len(s) : s[k] = 0
\* digits in base 2^k of a number given by its bits
RECURSIVE Group(_, _)
Bits2(b, k) == IF k = 1 THEN b[1] ELSE IF k = 3 THEN 4 * b[1] + 2 * b[2] + b[3] ELSE 8 * b[1] + 4 * b[2] + 2 * b[3] + b[4]
Group(b, k) == IF b = <<>> THEN <<>> ELSE <<Bits2(b, k)>> \o Group(SubSeq(b, k + 1, Len(b)), k)
Whole(b, k) == Fill(0, (k - (Len(b) % k)) % k) \o b
InBase(b, k) == IF b = <<>> THEN <<0>> ELSE Group(Whole(b, k), k)
\* the digits of the negative number -m, the digit that goes on for ever
\* written once
RECURSIVE Once(_, _)
Once(d, f) == IF Len(d) > 1 /\ d[1] = f /\ d[2] = f THEN Once(Tail(d), f) ELSE d
Complement(b, k) ==
  LET p == Fill(0, k) \o Whole(b, k)
      n == Inc([j \in 1..Len(p) |-> 1 - p[j]], 2)
  IN Once(Group(n, k), (IF k = 1 THEN 2 ELSE IF k = 3 THEN 8 ELSE 16) - 1)
Char(d, up) == IF d < 10 THEN 48 + d ELSE (IF up THEN 55 ELSE 87) + d
Chars(ds, up) == [j \in 1..Len(ds) |-> Char(ds[j], up)]

-----------------------------------------------------------------------------
(* A directive: flags, width and precision, -1 for none.                     *)
Pad(body, fl, w) ==
  IF Len(body) >= w THEN body
  ELSE IF "-" \in fl THEN body \o Fill(32, w - Len(body)) ELSE Fill(32, w - Len(body)) \o body
Sign(neg, fl) == IF neg THEN <<45>> ELSE IF "+" \in fl THEN <<43>> ELSE IF " " \in fl THEN <<32>> ELSE <<>>
\* zeros between what must stay in front and the digits
ZeroPad(front, body, fl, w) ==
  IF "0" \in fl /\ "-" \notin fl THEN front \o Fill(48, w - Len(front) - Len(body)) \o body
  ELSE Pad(front \o body, fl, w)

IntNeg(a) == a.neg = 1 /\ a.m # <<>>
BaseBits(c) == IF c \in {"b", "B"} THEN 1 ELSE IF c = "o" THEN 3 ELSE 4
Prefix(c) == CASE c = "b" -> <<48, 98>> [] c = "B" -> <<48, 66>> [] c = "x" -> <<48, 120>> [] c = "X" -> <<48, 88>>
             [] OTHER -> <<>>
\* A precision is a least number of digits, and the 0 flag counts only
\* without one. Zero with precision 0 has no digits.
IntText(a, c, fl, w, prec) ==
  LET dec == c \in {"d", "i", "u"}
      neg == IntNeg(a)
      signed == dec \/ "+" \in fl \/ " " \in fl
      dots == neg /\ ~signed
      up == c = "X"
      zero == a.m = <<>>
      ds == IF dec THEN Decimal(a.m) ELSE IF dots THEN Complement(a.m, BaseBits(c)) ELSE InBase(a.m, BaseBits(c))
      fill == IF dots THEN Char((IF BaseBits(c) = 1 THEN 2 ELSE IF BaseBits(c) = 3 THEN 8 ELSE 16) - 1, up) ELSE 48
      least == IF dots THEN prec - 2 ELSE prec
      given == Chars(ds, up)
      body == IF prec = 0 /\ zero THEN <<>> ELSE Fill(fill, least - Len(given)) \o given
      \* octal: one leading zero, no more; the others: none for zero
      pre == IF "#" \notin fl THEN <<>>
             ELSE IF c = "o" THEN (IF dots \/ (body # <<>> /\ body[1] = 48) THEN <<>> ELSE <<48>>)
             ELSE IF zero THEN <<>> ELSE Prefix(c)
      front == (IF signed THEN Sign(neg, fl) ELSE <<>>) \o pre \o (IF dots THEN <<46, 46>> ELSE <<>>)
  IN IF "0" \in fl /\ "-" \notin fl /\ prec < 0
       THEN front \o Fill(fill, w - Len(front) - Len(body)) \o body
     ELSE Pad(front \o body, fl, w)

-----------------------------------------------------------------------------
(* Floats. A finite float is an exact decimal number: digits d, the last s   *)
(* of them behind the point.                                                 *)
Exact(a) ==
  LET n == FromBits(a.m, 1, <<>>)
      e == IF a.t = "i" THEN 0 ELSE a.e
  IN IF e >= 0 THEN [d |-> Digits(Power(n, 2, 32, e)), s |-> 0] ELSE [d |-> Digits(Power(n, 5, 3125, -e)), s |-> -e]
\* x rounded to p digits behind the point, as a whole number of those
\* places: to the nearest, of two to the even one
Round(x, p) ==
  IF x.s <= p THEN x.d \o Fill(0, p - x.s)
  ELSE LET drop == x.s - p
           full == Fill(0, drop + 1 - Len(x.d)) \o x.d
           head == SubSeq(full, 1, Len(full) - drop)
           rest == Last(full, drop)
           up == rest[1] > 5 \/ (rest[1] = 5 /\ (~Zeros(Tail(rest)) \/ head[Len(head)] % 2 = 1))
       IN IF up THEN Inc(head, 10) ELSE head
Point(fl, frac) == IF frac # <<>> \/ "#" \in fl THEN <<46>> ELSE <<>>
FixedDigits(x, p) ==
  LET r == Strip(Round(x, p), 0)
      f == Fill(0, p + 1 - Len(r)) \o r
  IN [int |-> SubSeq(f, 1, Len(f) - p), frac |-> Last(f, p)]
FixedText(x, fl, p) ==
  LET r == FixedDigits(x, p) IN Chars(r.int, FALSE) \o Point(fl, r.frac) \o Chars(r.frac, FALSE)
\* the digits of d.ddd with p digits behind the point, and the exponent
ExpDigits(x, p) ==
  IF x.d = <<>> THEN [ds |-> Fill(0, p + 1), e |-> 0]
  ELSE LET r == Round([d |-> x.d, s |-> Len(x.d) - 1], p)
           e == Len(x.d) - 1 - x.s
       IN IF Len(r) = p + 2 THEN [ds |-> SubSeq(r, 1, p + 1), e |-> e + 1] ELSE [ds |-> r, e |-> e]
RECURSIVE NatChars(_)
NatChars(n) == IF n < 10 THEN <<48 + n>> ELSE NatChars(n \div 10) \o <<48 + (n % 10)>>
Abs(n) == IF n < 0 THEN -n ELSE n
ExpText(letter, e) == <<letter, IF e < 0 THEN 45 ELSE 43>> \o (IF Abs(e) < 10 THEN <<48>> ELSE <<>>) \o NatChars(Abs(e))
SciText(x, c, fl, p) ==
  LET r == ExpDigits(x, p)
  IN <<48 + r.ds[1]>> \o Point(fl, Tail(r.ds)) \o Chars(Tail(r.ds), FALSE) \o ExpText(IF c \in {"E", "G"} THEN 69 ELSE 101, r.e)
\* the shorter of the two; trailing zeros go unless # asks for them
GText(x, c, fl, prec) ==
  LET p == IF prec < 0 THEN 6 ELSE IF prec = 0 THEN 1 ELSE prec
      r == ExpDigits(x, p - 1)
      short(s) == IF "#" \in fl THEN s ELSE StripEnd(s, 0)
  IN IF r.e < -4 \/ r.e >= p
       THEN LET f == short(Tail(r.ds))
            IN <<48 + r.ds[1]>> \o Point(fl, f) \o Chars(f, FALSE) \o ExpText(IF c = "G" THEN 69 ELSE 101, r.e)
     ELSE LET q == FixedDigits(x, p - 1 - r.e)
              f == short(q.frac)
          IN Chars(q.int, FALSE) \o Point(fl, f) \o Chars(f, FALSE)
\* Hexadecimal: 1.hhh * 2^e. A digit that is carried into the leading 1 may
\* stay there as 2, and of two numbers equally near either will do.
HexTexts(a, c, fl, prec) ==
  LET up == c = "A"
      lead == IF up THEN <<48, 88>> ELSE <<48, 120>>
      letter == IF up THEN 80 ELSE 112
      e == IF a.m = <<>> THEN 0 ELSE Len(a.m) - 1 + (IF a.t = "i" THEN 0 ELSE a.e)
      tail == IF a.m = <<>> THEN <<>> ELSE Tail(a.m)
      hex == StripEnd(Group(tail \o Fill(0, (4 - (Len(tail) % 4)) % 4), 4), 0)
      one == IF a.m = <<>> THEN 0 ELSE 1
      show(l, f, x) == Chars(<<l>>, up) \o Point(fl, f) \o Chars(f, up) \o
                       <<letter, IF x < 0 THEN 45 ELSE 43>> \o NatChars(Abs(x))
      bodies ==
        IF prec < 0 THEN {show(one, hex, e)}
        ELSE IF Len(hex) <= prec THEN {show(one, hex \o Fill(0, prec - Len(hex)), e)}
        ELSE LET h == SubSeq(hex, 1, prec)
                 rest == SubSeq(hex, prec + 1, Len(hex))
                 over == rest[1] > 8 \/ (rest[1] = 8 /\ ~Zeros(Tail(rest)))
                 tie == rest[1] = 8 /\ Zeros(Tail(rest))
                 n == Inc(<<one>> \o h, 16)
             IN (IF over THEN {} ELSE {show(one, h, e)}) \cup
                (IF over \/ tie
                   THEN {show(n[1], Tail(n), e)} \cup (IF n[1] = 2 THEN {show(1, Tail(n), e + 1)} ELSE {})
                 ELSE {})
  IN [lead |-> lead, bodies |-> bodies]
FloatTexts(a, c, fl, w, prec) ==
  LET neg == IF a.t = "i" THEN IntNeg(a) ELSE a.neg = 1 /\ a.k # "nan"
      sign == Sign(neg, fl)
      p == IF prec < 0 THEN 6 ELSE prec
  IN IF a.t = "f" /\ a.k # "fin" THEN {Pad(sign \o (IF a.k = "nan" THEN <<78, 97, 78>> ELSE <<73, 110, 102>>), fl, w)}
     ELSE IF c \in {"a", "A"} THEN LET h == HexTexts(a, c, fl, prec) IN {ZeroPad(sign \o h.lead, b, fl, w) : b \in h.bodies}
     ELSE LET x == Exact(a)
              body == CASE c = "f" -> FixedText(x, IF a.t = "i" THEN fl \ {"#"} ELSE fl, p)
                        [] c \in {"e", "E"} -> SciText(x, c, fl, p)
                        [] OTHER -> GText(x, c, fl, prec)
          IN {ZeroPad(sign, body, fl, w)}

-----------------------------------------------------------------------------
(* One conversion: the texts that will do, or an error.                      *)
Ok(ts) == [e |-> "", ts |-> ts]
Err(e) == [e |-> e, ts |-> {}]
Shown(a) == IF a.t = "s" THEN a.s ELSE (IF IntNeg(a) THEN <<45>> ELSE <<>>) \o Chars(Decimal(a.m), FALSE)
Cut(s, prec) == IF prec >= 0 /\ Len(s) > prec THEN SubSeq(s, 1, prec) ELSE s
RECURSIVE Small(_, _)
Small(b, k) == IF k = 0 THEN 0 ELSE 2 * Small(b, k - 1) + b[k]
Convert(a, c, fl, w, prec, bin) ==
  CASE c \in {"d", "i", "u", "b", "B", "o", "x", "X"} -> (IF a.t = "i" THEN Ok({IntText(a, c, fl, w, prec)}) ELSE Err("type"))
    [] c \in {"f", "e", "E", "g", "G", "a", "A"} ->
         (IF a.t = "f" \/ (a.t = "i" /\ (c = "f" \/ Len(a.m) <= 53)) THEN Ok(FloatTexts(a, c, fl, w, prec)) ELSE Err("type"))
    [] c = "s" -> (IF a.t \in {"s", "i"} THEN Ok({Pad(Cut(Shown(a), prec), fl, w)}) ELSE Err("nomethod"))
    [] c = "p" -> (IF a.t = "s" THEN Ok({Pad(Cut(<<34>> \o a.s \o <<34>>, prec), fl, w)})
                   ELSE IF a.t = "i" THEN Ok({Pad(Cut(Shown(a), prec), fl, w)}) ELSE Err("nomethod"))
    [] OTHER -> \* c
         (IF a.t = "s" THEN Ok({Pad(Cut(a.s, 1), fl, w)})
          ELSE IF a.t # "i" THEN Err("type")
          ELSE IF IntNeg(a) \/ Len(a.m) > 21 THEN Err("arg")
          ELSE LET n == Small(a.m, Len(a.m))
               IN IF bin THEN (IF n > 255 THEN Err("range") ELSE Ok({Pad(<<n>>, fl, w)}))
                  ELSE IF n > 1114111 THEN Err("arg") ELSE Ok({Pad(<<n>>, fl, w)}))

-----------------------------------------------------------------------------
(* The format string. How arguments are chosen is remembered in `how`: not   *)
(* yet, the next one (with the number taken), by number, by name.            *)
Letters == [c \in {100, 105, 117, 98, 66, 111, 120, 88, 102, 101, 69, 103, 71, 97, 65, 115, 112, 99} |->
  CASE c = 100 -> "d" [] c = 105 -> "i" [] c = 117 -> "u" [] c = 98 -> "b" [] c = 66 -> "B" [] c = 111 -> "o"
    [] c = 120 -> "x" [] c = 88 -> "X" [] c = 102 -> "f" [] c = 101 -> "e" [] c = 69 -> "E" [] c = 103 -> "g"
    [] c = 71 -> "G" [] c = 97 -> "a" [] c = 65 -> "A" [] c = 115 -> "s" [] c = 112 -> "p" [] OTHER -> "c"]
Flags == [c \in {32, 35, 43, 45, 48} |-> CASE c = 32 -> " " [] c = 35 -> "#" [] c = 43 -> "+" [] c = 45 -> "-" [] OTHER -> "0"]
IsDigit(c) == c \in 48..57
Top == 2147483647
\* a number at p: its value (-1 if it is too big) and the place behind it
RECURSIVE Number(_, _, _)
Number(f, p, n) ==
  IF p > Len(f) \/ ~IsDigit(f[p]) THEN [n |-> n, p |-> p]
  ELSE LET d == f[p] - 48
       IN Number(f, p + 1, IF n < 0 \/ n > 214748364 \/ (n = 214748364 /\ d > 7) THEN -1 ELSE n * 10 + d)
At(f, p) == IF p <= Len(f) THEN f[p] ELSE 0
RECURSIVE Find(_, _, _)
Find(f, p, c) == IF p > Len(f) THEN 0 ELSE IF f[p] = c THEN p ELSE Find(f, p + 1, c)
\* taking an argument: [e, v, how]
Got(v, how) == [e |-> "", v |-> v, how |-> how]
No(e) == [e |-> e, v |-> <<>>, how |-> [k |-> "", n |-> 0]]
NextArg(args, how) ==
  IF how.k \in {"number", "name"} THEN No("mix")
  ELSE IF how.n + 1 > Len(args) THEN No("arg")
  ELSE Got(args[how.n + 1], [k |-> "next", n |-> how.n + 1])
NthArg(args, how, n) ==
  IF how.k \in {"next", "name"} THEN No("mix")
  ELSE IF n < 1 \/ n > Len(args) THEN No("arg")
  ELSE Got(args[n], [k |-> "number", n |-> 0])
NamedArg(args, how, name) ==
  IF how.k \in {"next", "number"} THEN No("mix")
  ELSE IF Len(args) # 1 \/ args[1].t # "h" THEN No("arg")
  ELSE LET S == {k \in 1..Len(args[1].kv) : args[1].kv[k][1] = name}
       IN IF S = {} THEN No("key") ELSE Got(args[1].kv[CHOOSE k \in S : TRUE][2], [k |-> "name", n |-> 0])
\* a width or precision from an argument, at the * at p
Star(f, p, args, how) ==
  LET q == Number(f, p + 1, 0)
      numbered == q.p > p + 1 /\ At(f, q.p) = 36
      g == IF numbered THEN (IF q.n < 0 THEN No("big") ELSE NthArg(args, how, q.n)) ELSE NextArg(args, how)
  IN IF g.e # "" THEN [e |-> g.e, v |-> 0, p |-> 0, how |-> how]
     ELSE IF g.v.t # "i" THEN [e |-> "type", v |-> 0, p |-> 0, how |-> how]
     ELSE IF Len(g.v.m) > 31 THEN [e |-> "big", v |-> 0, p |-> 0, how |-> how]
     ELSE [e |-> "", v |-> (IF IntNeg(g.v) THEN -1 ELSE 1) * Small(g.v.m, Len(g.v.m)),
           p |-> IF numbered THEN q.p + 1 ELSE p + 1, how |-> g.how]

Stop(e) == [e |-> e, ts |-> {}, p |-> 0, how |-> [k |-> "", n |-> 0]]
Fresh == [fl |-> {}, w |-> -1, prec |-> -1, dot |-> FALSE, v |-> <<>>, sym |-> FALSE]
\* the directive that begins in front of p; d is what has been read of it
RECURSIVE Directive(_, _, _, _, _, _)
Directive(f, p, d, args, how, bin) ==
  IF p > Len(f) THEN Stop("arg")
  ELSE LET c == f[p] IN
  IF c \in DOMAIN Flags THEN
    IF d.w >= 0 \/ d.dot THEN Stop("arg")
    ELSE Directive(f, p + 1, [d EXCEPT !.fl = @ \cup {Flags[c]}], args, how, bin)
  ELSE IF IsDigit(c) THEN
    LET q == Number(f, p, 0)
    IN IF q.p > Len(f) THEN Stop("arg")
       ELSE IF q.n < 0 THEN Stop("big")
       ELSE IF f[q.p] = 36 THEN
         IF d.v # <<>> THEN Stop("arg")
         ELSE LET g == NthArg(args, how, q.n)
              IN IF g.e # "" THEN Stop(g.e) ELSE Directive(f, q.p + 1, [d EXCEPT !.v = <<g.v>>], args, g.how, bin)
       ELSE IF d.w >= 0 \/ d.dot THEN Stop("arg")
       ELSE Directive(f, q.p, [d EXCEPT !.w = q.n], args, how, bin)
  ELSE IF c = 42 THEN
    IF d.w >= 0 \/ d.dot THEN Stop("arg")
    ELSE LET s == Star(f, p, args, how)
         IN IF s.e # "" THEN Stop(s.e)
            ELSE Directive(f, s.p, [d EXCEPT !.w = Abs(s.v), !.fl = IF s.v < 0 THEN @ \cup {"-"} ELSE @], args, s.how, bin)
  ELSE IF c = 46 THEN
    IF d.dot THEN Stop("arg")
    ELSE IF At(f, p + 1) = 42 THEN
      LET s == Star(f, p + 1, args, how)
      IN IF s.e # "" THEN Stop(s.e)
         ELSE Directive(f, s.p, [d EXCEPT !.dot = TRUE, !.prec = IF s.v < 0 THEN -1 ELSE s.v], args, s.how, bin)
    ELSE LET q == Number(f, p + 1, 0)
         IN IF q.n < 0 THEN Stop("big") ELSE Directive(f, q.p, [d EXCEPT !.dot = TRUE, !.prec = q.n], args, how, bin)
  ELSE IF c \in {60, 123} THEN
    LET z == Find(f, p, IF c = 60 THEN 62 ELSE 125)
    IN IF z = 0 THEN Stop("arg")
       ELSE IF d.sym THEN Stop("twice")
       ELSE LET g == NamedArg(args, how, SubSeq(f, p + 1, z - 1))
            IN IF g.e # "" THEN Stop(g.e)
               ELSE IF c = 123
                 THEN LET r == Convert(g.v, "s", d.fl, d.w, d.prec, bin)
                      IN [e |-> r.e, ts |-> r.ts, p |-> z + 1, how |-> g.how]
               ELSE Directive(f, z + 1, [d EXCEPT !.v = <<g.v>>, !.sym = TRUE], args, g.how, bin)
  ELSE IF c = 37 /\ d = Fresh THEN [e |-> "", ts |-> {<<37>>}, p |-> p + 1, how |-> how]
  ELSE IF c \notin DOMAIN Letters THEN Stop("arg")
  ELSE LET g == IF d.v # <<>> THEN Got(d.v[1], how) ELSE NextArg(args, how)
       IN IF g.e # "" THEN Stop(g.e)
          ELSE LET r == Convert(g.v, Letters[c], d.fl, d.w, d.prec, bin)
               IN [e |-> r.e, ts |-> r.ts, p |-> p + 1, how |-> g.how]
RECURSIVE Format(_, _, _, _, _, _, _)
\* strict: arguments taken in order must all be used, but for a lone hash
Format(f, p, args, how, bin, strict, acc) ==
  LET q == Find(f, p, 37)
      lit == IF q = 0 THEN SubSeq(f, p, Len(f)) ELSE SubSeq(f, p, q - 1)
      now == {a \o lit : a \in acc}
  IN IF q = 0
       THEN IF strict /\ how.k \in {"", "next"} /\ how.n < Len(args) /\ ~(Len(args) = 1 /\ args[1].t = "h") THEN Err("arg")
            ELSE Ok(now)
     ELSE LET r == Directive(f, q + 1, Fresh, args, how, bin)
          IN IF r.e # "" THEN Err(r.e)
             ELSE Format(f, r.p, args, r.how, bin, strict, {a \o t : a \in now, t \in r.ts})
SprintfStrict(f, args, bin, strict) == Format(f, 1, args, [k |-> "", n |-> 0], bin, strict, {<<>>})
Sprintf(f, args, bin) == SprintfStrict(f, args, bin, FALSE)
\* errors of a kind that the wording of a program depends on, not their order
Admits(e, got) == got \in (CASE e = "mix" -> {"arg", "key", "type"} [] e = "twice" -> {"arg"} [] e = "big" -> {"arg", "range"} [] OTHER -> {e})
=============================================================================
