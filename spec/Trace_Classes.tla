--------------------------- MODULE Trace_Classes ---------------------------
(* Recorded histories of the class table against Classes. Each event carries *)
(* the answers of every class to some of the questions.                      *)
EXTENDS Classes, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, i, st, bad
vars == <<tid, i, st, bad>>
\* histories with "pre" start with three modules, a class and its subclass
Prepared == [Start EXCEPT !.c = @ \o <<Fresh("module", 0), Fresh("module", 0), Fresh("module", 0),
                                       Fresh("class", Object), Fresh("class", 7)>>]
Init == /\ tid \in 1..Len(Traces) /\ i = 1 /\ bad = ""
        /\ st = IF Traces[tid].pre = 1 THEN Prepared ELSE Start
RECURSIVE Bits(_, _)
Bits(S, k) == IF k < 0 THEN 0 ELSE (IF k + 1 \in S THEN 2 ^ k ELSE 0) + Bits(S, k - 1)
Subs(s, x) == SelectSeq([k \in 1..Len(s.c) |-> k], LAMBDA y : s.c[y].kind = "class" /\ s.c[y].sup = x)
Cell(k) == <<((k - 1) \div NNames) + 1, ((k - 1) % NNames) + 1>>
RECURSIVE AllSupers(_, _)
AllSupers(s, x) == IF x > Len(s.c) THEN <<>> ELSE Supers(s, x) \o AllSupers(s, x + 1)
\* The names are !=, to_str and =~, which each class remembers something of:
\* whether != is other than the default (function 1), to_str is missing, and
\* what =~ is.
Remembered(s, x) ==
  LET f(n) == LET m == Method(s, x, n) IN IF m = Miss THEN 0 ELSE m[1]
  IN << IF f(1) = 1 THEN 0 ELSE f(1), IF f(2) = 0 THEN 1 ELSE 0, f(3) >>
Why(s, d) ==
  LET n == Len(s.c) IN
  IF "panic" \in DOMAIN d THEN "panic"
  ELSE IF "anc" \in DOMAIN d /\ \E x \in 1..n : d.anc[x] # Ancestors(s, x) THEN "ancestors"
  ELSE IF "kin" \in DOMAIN d /\ \E x \in 1..n : d.kin[x] # Bits(Range(Chain(s, x)), n - 1) THEN "kinship"
  ELSE IF "subs" \in DOMAIN d /\ \E x \in 4..n : d.subs[x - 3] # Subs(s, x) THEN "subclasses"
  ELSE IF "met" \in DOMAIN d /\ \E k \in 1..n * NNames : d.met[k] # Method(s, Cell(k)[1], Cell(k)[2]) THEN "method"
  ELSE IF "obj" \in DOMAIN d /\ \E k \in 1..Len(s.o) * NNames :
            d.obj[k] # (LET m == Method(s, s.o[Cell(k)[1]], Cell(k)[2]) IN IF m = Miss THEN 0 ELSE m[1]) THEN "method of an object"
  ELSE IF "sup" \in DOMAIN d /\ d.sup # AllSupers(s, 1) THEN "super"
  ELSE IF "memo" \in DOMAIN d /\ \E x \in 1..n : d.memo[x] # Remembered(s, x) THEN "remembered"
  ELSE IF "ref" \in DOMAIN d /\ \E k \in 1..n * NNames : d.ref[k] # Lookup(s, Cell(k)[1], Cell(k)[2], s.s[d.set]) THEN "refined method"
  ELSE IF "lst" \in DOMAIN d /\ \E x \in 4..n : d.lst[x - 3] # Lists(s, x) THEN "list"
  ELSE ""
Next ==
  /\ bad = "" /\ i <= Len(Traces[tid].ev)
  /\ LET e == Traces[tid].ev[i] IN
     IF e.r = <<-99>> THEN bad' = "panic" /\ UNCHANGED <<tid, i, st>>
     ELSE LET x == Step(st, e.o)
              why == IF x.r # e.r THEN "answer" ELSE Why(x.st, e.d)
          IN IF why = "" THEN i' = i + 1 /\ st' = x.st /\ UNCHANGED <<tid, bad>>
             ELSE bad' = why /\ UNCHANGED <<tid, i, st>>
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
