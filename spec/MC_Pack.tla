------------------------------ MODULE MC_Pack ------------------------------
(* What is packed is what is unpacked, for every template and value of a     *)
(* small set; the two readings of base 64 agree where both are defined; the  *)
(* decoders of UTF-8, base 64 and single floats accept exactly what their     *)
(* encoders give.                                                             *)
EXTENDS Pack
CONSTANTS MaxDirs, MaxText
VARIABLES kind, t, v
vars == <<kind, t, v>>
N(n) == IF n >= 0 THEN Num(Small(n)) ELSE Num([k \in 1..10 |-> 255 - Small(-n - 1)[k]])
Big(k) == Num([j \in 1..10 |-> IF j = k THEN 128 ELSE 0])       \* 2^(8k-1)
D(c) == <<c, 0, None>>
\* a directive and the values it keeps
Uns8 == {N(0), N(127), N(128), N(255)}
Sig16 == {N(-32768), N(-1), N(0), N(32767)}
Uns32 == {N(0), N(65535), N(1000000000), Big(4)}
Sig64 == {N(-1), N(0), Num(<<0,0,0,0,0,0,0,128,255,255>>), Num(<<255,255,255,255,255,255,255,127,0,0>>)}
Uns64 == {N(0), N(255), Big(8)}
Any80 == {N(0), N(127), N(128), N(16383), N(16384), Big(8), Big(9)}
Points == {N(0), N(127), N(128), N(2047), N(2048), N(65535), N(65536), N(2097151), N(2097152), N(67108863), N(67108864), N(2147483647)}
Signed7 == {N(0), N(63), N(64), N(-64), N(-65), N(-1)} \cup Sig64
Plain == {Str(<<>>), Str(<<97>>), Str(<<97, 32, 255>>)}
Pairs == {<<D("C"), Uns8>>, <<<<"s", 2, None>>, Sig16>>, <<D("v"), {N(0), N(256), N(65535)}>>, <<D("N"), Uns32>>,
          <<<<"l", 4, None>>, Sig64>>, <<<<"Q", 2, None>>, Uns64>>, <<D("w"), Any80>>, <<D("R"), Uns64>>, <<D("r"), Signed7>>,
          <<D("U"), Points>>, <<<<"Z", 0, Star>>, Plain>>, <<<<"a", 0, 3>>, {Str(<<97, 0, 255>>)}>>,
          <<<<"A", 0, 2>>, {Str(<<>>), Str(<<97>>), Str(<<97, 98>>)}>>,
          <<<<"H", 0, 4>>, {Ascii(<<48, 49, 97, 102>>)}>>, <<<<"b", 0, 8>>, {Ascii(<<48, 49, 49, 48, 48, 48, 48, 49>>)}>>,
          <<D("G"), {<<3, <<63, 240, 0, 0, 0, 0, 0, 1>>>>}>>, <<D("e"), {<<3, <<191, 248, 0, 0, 32, 0, 0, 0>>>>}>>}
Ends == {<<<<"m", 0, c>>, Plain \cup {Str(<<1, 2, 3, 4, 5, 6, 7>>)}>> : c \in {None, 0, 4}}
        \cup {<<<<"a", 0, Star>>, Plain>>}
RECURSIVE Rows(_)
Rows(n) == IF n = 0 THEN {<<>>} ELSE LET R == Rows(n - 1) IN R \cup {Append(r, p) : r \in {x \in R : Len(x) = n - 1}, p \in Pairs}
Choices == LET R == Rows(MaxDirs) IN R \cup {Append(r, p) : r \in {x \in R : Len(x) < MaxDirs}, p \in Ends}
RECURSIVE Values(_)
Values(r) == IF r = <<>> THEN {<<>>} ELSE {<<x>> \o y : x \in r[1][2], y \in Values(Tail(r))}
RECURSIVE Texts64(_, _)
Texts64(S, n) == IF n = 0 THEN {<<>>} ELSE LET R == Texts64(S, n - 1) IN R \cup {Append(r, c) : r \in {x \in R : Len(x) = n - 1}, c \in S}
Alphabet64 == {65, 81, 103, 47, 61, 10}
Edges == {65, 128, 191, 193, 194, 224, 160, 240, 143, 144, 248, 136, 252, 132, 254}
\* first what is begun with, then every way to go on
Init ==
  \/ kind = "round?" /\ t \in Choices /\ v = <<>>
  \/ kind = "64?" /\ t = <<>> /\ v \in {<<>>} \cup {<<c>> : c \in Alphabet64}
  \/ kind = "utf8?" /\ t = <<>> /\ v \in {<<c>> : c \in Edges}
  \/ kind = "single?" /\ t = <<>> /\ v \in {<<c>> : c \in {0, 1, 127, 128, 191, 254, 255}}
Next ==
  \/ /\ kind = "round?" /\ kind' = "round"
     /\ t' = [k \in 1..Len(t) |-> t[k][1]] /\ v' \in Values(t)
  \/ /\ kind = "64?" /\ kind' = "64" /\ t' = t
     /\ IF v = <<>> THEN v' = v ELSE v' \in {v \o x : x \in Texts64(Alphabet64, MaxText - 1)}
  \/ /\ kind = "utf8?" /\ kind' = "utf8" /\ t' = t
     /\ v' \in {v \o x : x \in Texts64(Edges, MaxText - 3)}
  \/ /\ kind = "single?" /\ kind' = "single" /\ t' = t
     /\ v' \in {v \o x : x \in [1..3 -> {0, 1, 127, 128, 191, 254, 255}]}
Spec == Init /\ [][Next]_vars
\* a string packed from US-ASCII text is the same bytes
Given(x) == [k \in 1..Len(x) |-> IF x[k][1] = 4 THEN Str(x[k][2]) ELSE x[k]]
Round == kind = "round" =>
  LET p == PackAll(t, Given(v), <<>>)
      u == Unpack(p.b, t, FALSE, 0)
      w == Unpack(p.b, t, TRUE, 0)
  IN /\ p.e = "" /\ u.e = "" /\ u.v = v
     /\ (v # <<>> => w.v = <<v[1]>>)
     /\ PackAll(t, Given(v), <<1, 2>>).b = <<1, 2>> \o p.b
\* RFC 4648, without decoding
Canonical(s) ==
  LET n == Len(s)
      p == IF n >= 2 /\ s[n] = Pad /\ s[n - 1] = Pad THEN 2 ELSE IF n >= 1 /\ s[n] = Pad THEN 1 ELSE 0
  IN /\ n % 4 = 0
     /\ \A k \in 1..(n - p) : Code64(s[k]) >= 0
     /\ (p = 1 => Code64(s[n - 1]) % 4 = 0)
     /\ (p = 2 => Code64(s[n - 2]) % 16 = 0)
Base == kind = "64" => (Strict64(v) <=> Canonical(v))
\* blanks between the letters do not matter to the loose reading
Blanks == kind = "64" => From64(v) = From64(SelectSeq(v, LAMBDA c : c # NL))
Chars == kind = "utf8" =>
  LET u == Utf8First(v)
  IN IF u.n > 0 THEN Utf8(u.v) = Take(v, u.n) /\ \A k \in 1..(u.n - 1) : Utf8First(Take(v, k)).n = 0
     ELSE TRUE
Singles1 == kind = "single" => LET d == ToDouble(v)
                                   e == (v[1] % 128) * 2 + v[2] \div 128
                               IN IF NotANumber(d) THEN e = 255
                                  ELSE (e > 0 \/ (v[2] % 128 = 0 /\ v[3] = 0 /\ v[4] = 0)) => ToSingle(d) = v
=============================================================================
