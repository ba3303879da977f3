-------------------------- MODULE Trace_Constants --------------------------
(* Recorded histories of constants and class variables against Constants.    *)
(* Each event carries the tables and answers of every class.                 *)
EXTENDS Constants, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, i, st, bad
vars == <<tid, i, st, bad>>
Init == tid \in 1..Len(Traces) /\ i = 1 /\ bad = "" /\ st = Begin
Class(j, w, first) == ((j - 1) \div w) + first
Name(j, w) == ((j - 1) % w) + 1
Row(e) == IF e.k = "none" THEN <<>> ELSE <<IF e.k = "val" THEN 0 ELSE 1, e.v, e.s, e.p, e.d>>
Why(s, d) ==
  LET n == Len(s.k) IN
  IF "panic" \in DOMAIN d THEN "panic"
  ELSE IF "tab" \in DOMAIN d THEN
    IF \E j \in 1..(n - 1) * NCon : d.tab[j] # Row(s.k[Class(j, NCon, 2)][Name(j, NCon)]) THEN "table"
    ELSE IF \E x \in 2..n : d.own[x - 1] # OwnNames(s, x) THEN "own names"
    ELSE IF \E x \in 2..n : d.inh[x - 1] # Names(s, x) THEN "names"
    ELSE IF \E j \in 1..(n - 1) * NCon : d.probe[j] # Probes(s, Class(j, NCon, 2), Name(j, NCon)) THEN "probe"
    ELSE IF \E q \in 1..4 : d.files[q] # Files(s, q) THEN "files"
    ELSE ""
  ELSE
    IF \E j \in 1..(n - 3) * NVar : d.find[j] # Nearby(s, Class(j, NVar, 4), Name(j, NVar)) THEN "nearest variable"
    ELSE IF \E j \in 1..(n - 3) * NVar : \E m \in {2 * j - 1, 2 * j} :
              d.get[m] # GetVar(s, Class(j, NVar, 4), Name(j, NVar)) THEN "variable"
    ELSE IF \E x \in 4..n : d.vars[x - 3] # [j \in 1..Len(s.v[x]) |-> s.v[x][j][1]] THEN "variable names"
    ELSE ""
Next ==
  /\ bad = "" /\ i <= Len(Traces[tid].ev)
  /\ LET e == Traces[tid].ev[i] IN
     IF e.r = <<-99>> THEN bad' = "panic" /\ UNCHANGED <<tid, i, st>>
     ELSE LET x == Act(st, e.o)
              why == IF x.r # e.r THEN "answer" ELSE Why(x.st, e.d)
          IN IF why = "" THEN i' = i + 1 /\ st' = x.st /\ UNCHANGED <<tid, bad>>
             ELSE bad' = why /\ UNCHANGED <<tid, i, st>>
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
