-------------------------------- MODULE Glob --------------------------------
(* Glob patterns and brace groups.  Patterns and names are sequences of code   *)
(* points.  Flags: 1 no escapes, 2 path name, 4 leading periods match, 8       *)
(* ignore case, 16 brace groups.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Star == 42
Quest == 63
Open == 91
Close == 93
Bang == 33
Caret == 94
Dash == 45
Back == 92
Dot == 46
Slash == 47
LB == 123
RB == 125
Comma == 44
Flag(f, b) == (f \div b) % 2 = 1
Fold(c) == IF c \in 65..90 THEN c + 32 ELSE IF c \in 192..222 \ {215} THEN c + 32 ELSE c
Folded(c, cf) == IF cf THEN Fold(c) ELSE c
Drop(s, n) == SubSeq(s, n + 1, Len(s))

(* ---------------------------------------------------------------- tokens *)
(* A pattern is a sequence of tokens: a star, any one character, a character,  *)
(* a class of characters, or something that never matches.                    *)
(* Items of a bracket starting at position i: <<ranges, position after the     *)
(* closing bracket>>, position 0 when it is never closed.                     *)
RECURSIVE Items(_, _, _, _)
CharAt(p, i, esc) == IF esc /\ p[i] = Back /\ i < Len(p) THEN <<p[i + 1], i + 2>> ELSE <<p[i], i + 1>>
Items(p, i, esc, acc) ==
  IF i > Len(p) THEN <<acc, 0>>
  ELSE IF p[i] = Close THEN <<acc, i + 1>>
  ELSE LET lo == CharAt(p, i, esc)
           j == lo[2]
       IN IF j + 1 <= Len(p) /\ p[j] = Dash /\ p[j + 1] /= Close
          THEN LET hi == CharAt(p, j + 1, esc) IN Items(p, hi[2], esc, acc \cup {<<lo[1], hi[1]>>})
          ELSE Items(p, j, esc, acc \cup {<<lo[1], lo[1]>>})
RECURSIVE Tokens(_, _, _)
Tokens(p, i, esc) ==
  IF i > Len(p) THEN <<>>
  ELSE CASE p[i] = Star -> <<<<"star">>>> \o Tokens(p, i + 1, esc)
         [] p[i] = Quest -> <<<<"any">>>> \o Tokens(p, i + 1, esc)
         [] p[i] = Open ->
              LET neg == i < Len(p) /\ p[i + 1] \in {Bang, Caret}
                  b == Items(p, IF neg THEN i + 2 ELSE i + 1, esc, {})
              IN IF b[2] = 0 THEN <<<<"never">>>> ELSE <<<<"class", neg, b[1]>>>> \o Tokens(p, b[2], esc)
         [] OTHER -> LET c == CharAt(p, i, esc) IN <<<<"char", c[1]>>>> \o Tokens(p, c[2], esc)
InClass(t, c, cf) ==
  LET x == Folded(c, cf)
      in == \E r \in t[3] : Folded(r[1], cf) <= x /\ x <= Folded(r[2], cf)
  IN in /= t[2]

(* ---------------------------------------------------- one segment or name *)
(* The set of prefixes of s (as lengths) the tokens 1..k can match; a leading  *)
(* period is only matched by a literal one.                                   *)
RECURSIVE Prefixes(_, _, _, _, _)
Prefixes(toks, k, s, cf, guard) ==
  IF k = 0 THEN {0}
  ELSE LET P == Prefixes(toks, k - 1, s, cf, guard)
           t == toks[k]
           free(j) == ~(guard /\ j = 0 /\ s[1] = Dot)   \* may a wildcard take s[j+1]?
           one(ok(_)) == {j + 1 : j \in {q \in P : q < Len(s) /\ ok(q)}}
       IN CASE t[1] = "star" -> P \cup {j \in 1..Len(s) : \E q \in P : q < j /\ free(q)}
            [] t[1] = "any" -> one(LAMBDA q : free(q))
            [] t[1] = "class" -> one(LAMBDA q : free(q) /\ InClass(t, s[q + 1], cf))
            [] t[1] = "char" -> one(LAMBDA q : Folded(t[2], cf) = Folded(s[q + 1], cf))
            [] OTHER -> {}
SegMatch(p, s, f) ==
  LET toks == Tokens(p, 1, ~Flag(f, 1))
  IN Len(s) \in Prefixes(toks, Len(toks), s, Flag(f, 8), ~Flag(f, 4))

(* -------------------------------------------------------------- path names *)
RECURSIVE Split(_, _, _)
Split(s, i, cur) ==
  IF i > Len(s) THEN <<cur>>
  ELSE IF s[i] = Slash THEN <<cur>> \o Split(s, i + 1, <<>>) ELSE Split(s, i + 1, Append(cur, s[i]))
GlobStar == <<Star, Star>>
Hidden(seg, f) == ~Flag(f, 4) /\ seg /= <<>> /\ seg[1] = Dot
RECURSIVE Segments(_, _, _)
Segments(P, S, f) ==
  IF P = <<>> THEN S = <<>>
  ELSE IF P[1] = GlobStar /\ Len(P) > 1
       THEN \E k \in 0..Len(S) : (\A i \in 1..k : ~Hidden(S[i], f)) /\ Segments(Tail(P), Drop(S, k), f)
       ELSE S /= <<>> /\ SegMatch(P[1], S[1], f) /\ Segments(Tail(P), Tail(S), f)
PlainMatch(p, s, f) ==
  IF Flag(f, 2) THEN Segments(Split(p, 1, <<>>), Split(s, 1, <<>>), f) ELSE SegMatch(p, s, f)

(* ------------------------------------------------------------ brace groups *)
(* Position of the brace closing the group opened at i (0: never closed); of   *)
(* the commas that separate its alternatives.                                 *)
RECURSIVE Closing(_, _, _, _)
Closing(p, i, d, esc) ==
  IF i > Len(p) THEN 0
  ELSE CASE esc /\ p[i] = Back /\ i < Len(p) -> Closing(p, i + 2, d, esc)
         [] p[i] = LB -> Closing(p, i + 1, d + 1, esc)
         [] p[i] = RB -> IF d = 1 THEN i ELSE Closing(p, i + 1, d - 1, esc)
         [] OTHER -> Closing(p, i + 1, d, esc)
RECURSIVE Alternatives(_, _, _, _, _)
Alternatives(p, i, d, esc, cur) ==      \* p: the inside of a group
  IF i > Len(p) THEN <<cur>>
  ELSE CASE esc /\ p[i] = Back /\ i < Len(p) -> Alternatives(p, i + 2, d, esc, cur \o <<p[i], p[i + 1]>>)
         [] p[i] = Comma /\ d = 0 -> <<cur>> \o Alternatives(p, i + 1, d, esc, <<>>)
         [] OTHER -> Alternatives(p, i + 1, d + (CASE p[i] = LB -> 1 [] p[i] = RB -> -1 [] OTHER -> 0), esc, Append(cur, p[i]))
Cross(A, B) == [k \in 1..(Len(A) * Len(B)) |-> A[((k - 1) \div Len(B)) + 1] \o B[((k - 1) % Len(B)) + 1]]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
(* all texts p stands for, in order; an opening brace that is never closed     *)
(* makes the rest literal, a closing brace without an opening one is literal  *)
RECURSIVE Expand(_, _)
RECURSIVE From(_, _, _)
From(p, i, esc) ==
  IF i > Len(p) THEN <<<<>>>>
  ELSE CASE esc /\ p[i] = Back /\ i < Len(p) -> Cross(<<<<p[i], p[i + 1]>>>>, From(p, i + 2, esc))
         [] p[i] = LB ->
              LET c == Closing(p, i + 1, 1, esc) IN
              IF c = 0 THEN <<Drop(p, i - 1)>>
              ELSE LET alts == Alternatives(SubSeq(p, i + 1, c - 1), 1, 0, esc, <<>>)
                   IN Cross(Flat([k \in 1..Len(alts) |-> Expand(alts[k], esc)]), From(p, c + 1, esc))
         [] OTHER -> Cross(<<<<p[i]>>>>, From(p, i + 1, esc))
Expand(p, esc) == From(p, 1, esc)

(* ------------------------------------------------------------------ answers *)
Match(p, s, f) ==
  IF Flag(f, 16) THEN LET E == Expand(p, ~Flag(f, 1)) IN \E k \in 1..Len(E) : PlainMatch(E[k], s, f)
  ELSE PlainMatch(p, s, f)
MatchOk(p, names, f, r) ==
  r[1] = "ok" /\ {r[2][k] : k \in 1..Len(r[2])} = {i \in 1..Len(names) : Match(p, names[i], f)}
ExpandOk(p, noesc, r) == r[1] = "ok" /\ r[2] = Expand(p, ~noesc)
==============================================================================
