------------------------------ MODULE StrRange ------------------------------
(* The rules by which a string's cached classification is carried over an    *)
(* operation without looking at all bytes again. A string is ASCII only (1), *)
(* well formed (2) or broken (3); the cache holds that or nothing (0).       *)
(*                                                                           *)
(* Bytes are A (ASCII), L (leads a two byte character) and T (trails one).   *)
(* Encodings: "utf8" (a character is A or L T), "ascii" (only A), "bin"      *)
(* (every byte), "pair" (double byte, trails may look like leads), "wide"    *)
(* (two bytes each, not ASCII compatible). Every pair of strings with right  *)
(* caches is an initial state and every operation one step: the rules are    *)
(* right if the cache is right afterwards. Each constant set to FALSE is one *)
(* rule as it once was.                                                      *)
EXTENDS Integers, Sequences
CONSTANTS MaxX, MaxY, ReverseForgets, RepeatForgets, SpliceLooks, SubLooks, CheckedByEncoding
Byte == {"A", "L", "T"}
Enc == {"utf8", "ascii", "bin", "pair", "wide"}
SeqUpTo(n) == UNION {[1..k -> Byte] : k \in 0..n}
AsciiCompatible(e) == e # "wide"
AllAscii(b) == \A i \in 1..Len(b) : b[i] = "A"
RECURSIVE Good(_, _)
Good(e, b) ==
  IF b = <<>> THEN TRUE
  ELSE CASE e = "bin" -> TRUE
         [] e = "ascii" -> b[1] = "A" /\ Good(e, Tail(b))
         [] e = "wide" -> Len(b) >= 2 /\ Good(e, SubSeq(b, 3, Len(b)))
         [] e = "utf8" -> (b[1] = "A" /\ Good(e, Tail(b))) \/ (Len(b) >= 2 /\ b[1] = "L" /\ b[2] = "T" /\ Good(e, SubSeq(b, 3, Len(b))))
         [] OTHER -> (b[1] = "A" /\ Good(e, Tail(b))) \/ (Len(b) >= 2 /\ b[1] # "A" /\ b[2] # "A" /\ Good(e, SubSeq(b, 3, Len(b))))
Class(e, b) == IF b = <<>> \/ (AsciiCompatible(e) /\ AllAscii(b)) THEN 1 ELSE IF Good(e, b) THEN 2 ELSE 3
Strings(n) == {[e |-> e, b |-> b, c |-> c] : e \in Enc, b \in SeqUpTo(n), c \in 0..3}
Right(x) == x.c = 0 \/ x.c = Class(x.e, x.b)
Known(x) == IF x.c = 0 THEN Class(x.e, x.b) ELSE x.c

WalkAt(e, b, i) ==
  IF e = "wide" THEN (IF i = Len(b) THEN 1 ELSE 2)
  ELSE IF e = "utf8" THEN (IF b[i] = "L" /\ i < Len(b) THEN (IF b[i + 1] = "T" THEN 2 ELSE 1) ELSE 1)
  ELSE IF e = "pair" THEN (IF b[i] # "A" /\ i < Len(b) THEN 2 ELSE 1) ELSE 1
RECURSIVE Backwards(_, _, _)
Backwards(e, b, i) == IF i > Len(b) THEN <<>> ELSE LET w == WalkAt(e, b, i) IN Backwards(e, b, i + w) \o SubSeq(b, i, i + w - 1)

(* ---- the rules ---- *)
Reverse(x) ==
  LET k == Known(x) IN
  [x EXCEPT !.b = Backwards(x.e, x.b, 1), !.c = IF k = 3 /\ ReverseForgets THEN 0 ELSE k]
Repeat(x, n) ==
  [x EXCEPT !.b = IF n = 0 THEN <<>> ELSE IF n = 1 THEN x.b ELSE x.b \o x.b,
            !.c = IF n = 0 THEN 1 ELSE IF x.c = 3 /\ n > 1 /\ RepeatForgets THEN 0 ELSE x.c]
Boundary(b, i) == i = 0 \/ i = Len(b) \/ b[i + 1] # "T"
\* bytes i+1 .. j of a classified parent
Sub(x, i, j) ==
  LET b == SubSeq(x.b, i + 1, j)
      k == Known(x)
      p == IF i = j THEN 1
           ELSE IF k = 1 THEN 1
           ELSE IF k # 2 THEN 0
           ELSE CASE x.e = "bin" -> 2
                  [] x.e = "utf8" -> IF Boundary(x.b, i) /\ Boundary(x.b, j) THEN 2 ELSE 0
                  [] x.e = "wide" -> IF i % 2 = 0 /\ j % 2 = 0 THEN 2 ELSE 0
                  [] OTHER -> 0
  IN [x EXCEPT !.b = b, !.c = IF p = 2 /\ SubLooks /\ AsciiCompatible(x.e) /\ AllAscii(b) THEN 1 ELSE p]
SetByte(x, i, v) == [x EXCEPT !.b[i] = v, !.c = IF x.c = 1 /\ v = "A" THEN 1 ELSE 0]
Merge(c, d) == IF c = 1 /\ d = 1 THEN 1 ELSE IF c \in {1, 2} /\ d \in {1, 2} THEN 2 ELSE 0
None == "none"
Compatible(x, y) ==
  IF x.e = y.e \/ y.b = <<>> THEN x.e
  ELSE IF x.b = <<>> THEN (IF AsciiCompatible(x.e) /\ Known(y) = 1 THEN x.e ELSE y.e)
  ELSE IF ~AsciiCompatible(x.e) \/ ~AsciiCompatible(y.e) THEN None
  ELSE IF Known(y) = 1 THEN x.e ELSE IF Known(x) = 1 THEN y.e ELSE None
\* deciding about the encoding may have filled the cache
Looked(x, y) == IF x.e = y.e \/ x.b = <<>> \/ y.b = <<>> THEN x.c ELSE Known(x)
Extend(x, y) ==
  IF y.b = <<>> \/ Compatible(x, y) = None THEN x
  ELSE [e |-> Compatible(x, y), b |-> x.b \o y.b, c |-> Merge(Looked(x, y), Known(y))]
\* a piece of text known to be well-formed UTF-8 if the receiver is text
Checked(x, p) ==
  IF x.e \in {"utf8", "ascii"} /\ ~Good("utf8", p) THEN x
  ELSE LET d == IF AllAscii(p) /\ (AsciiCompatible(x.e) \/ ~CheckedByEncoding) THEN 1
                ELSE IF x.e = "utf8" \/ (x.e = "ascii" /\ ~CheckedByEncoding) THEN 2 ELSE 0
       IN [x EXCEPT !.b = @ \o p, !.c = Merge(x.c, d)]
MergeIn(x, p) == IF p = <<>> THEN x ELSE [x EXCEPT !.b = @ \o p, !.c = Merge(x.c, Class(x.e, p))]
Splice(x, i, j, y) ==
  LET e == Compatible(x, y)
      b == SubSeq(x.b, 1, i) \o y.b \o SubSeq(x.b, j + 1, Len(x.b))
      c == Looked(x, y)
      k == Class(e, b)
      edges == x.e = "utf8" /\ c \in {1, 2} /\ Boundary(x.b, i) /\ Boundary(x.b, j)
      plain == AllAscii(SubSeq(x.b, i + 1, j))
  IN IF e = None THEN x
     ELSE IF c = 1 /\ Known(y) = 1 /\ AsciiCompatible(e) THEN [e |-> e, b |-> b, c |-> 1]
     ELSE IF edges /\ (Known(y) = 2 \/ (Known(y) = 1 /\ (plain \/ ~SpliceLooks))) THEN [e |-> e, b |-> b, c |-> 2]
     ELSE IF k = 3 /\ e \in {"utf8", "ascii"} THEN [e |-> "bin", b |-> b, c |-> 2]
     ELSE [e |-> e, b |-> b, c |-> k]

VARIABLES x, y, done
vars == <<x, y, done>>
Init == /\ x \in {z \in Strings(MaxX) : Right(z)}
        /\ y \in {z \in Strings(MaxY) : Right(z)}
        /\ done = FALSE
\* operations on x alone are tried with one y only
Alone == y.e = "utf8" /\ y.b = <<>> /\ y.c = 0
Next ==
  /\ ~done /\ done' = TRUE /\ y' = y
  /\ \/ Alone /\ x' = Reverse(x)
     \/ Alone /\ \E n \in 0..2 : x' = Repeat(x, n)
     \/ Alone /\ \E j \in 0..Len(x.b) : \E i \in 0..j : x' = Sub(x, i, j)
     \/ Alone /\ \E i \in 1..Len(x.b), v \in Byte : x' = SetByte(x, i, v)
     \/ x' = Extend(x, y)
     \/ x' = Checked(x, y.b)
     \/ x' = MergeIn(x, y.b)
     \/ \E j \in 0..Len(x.b) : \E i \in 0..j : x' = Splice(x, i, j, y)
Spec == Init /\ [][Next]_vars
CacheRight == Right(x)
=============================================================================
