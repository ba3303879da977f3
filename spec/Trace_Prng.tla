----------------------------- MODULE Trace_Prng -----------------------------
(* Recorded seedings and draws against Prng.  c is the number of words drawn
   by the operation where the code counts them, else -1.                     *)
EXTENDS Prng, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, i, st, bad
vars == <<tid, i, st, bad>>
Init == tid \in 1..Len(Traces) /\ i = 1 /\ st = [mt |-> <<>>, i |-> 0] /\ bad = ""
RECURSIVE FlatWords(_)
FlatWords(ws) == IF ws = <<>> THEN <<>> ELSE Head(ws) \o FlatWords(Tail(ws))
Counted(e, n) == e.c \in {-1, n}
After2(e) ==
  LET o == e.o
      two == TLCEval(Draws(st, 2))
  IN CASE o[1] = "seed" -> [ok |-> e.r = <<>>, s |-> TLCEval(Seeded(e.k))]
       [] o[1] = "word" -> LET d == TLCEval(Draws(st, o[2])) IN [ok |-> e.r = d.w[o[2]], s |-> d.s]
       [] o[1] = "bytes" -> LET d == TLCEval(Draws(st, (o[2] + 3) \div 4)) IN [ok |-> e.r = SubSeq(Flat(d.w), 1, o[2]), s |-> d.s]
       [] o[1] = "real" -> [ok |-> e.r = Real(two.w[1], two.w[2]) /\ Counted(e, 2), s |-> two.s]
       [] o[1] = "closed" -> [ok |-> e.r = RealClosed(two.w[1], two.w[2]), s |-> two.s]
       [] o[1] = "limit" -> LET d == TLCEval(Limited(st, e.k, 0)) IN [ok |-> e.r = FlatWords(d.digits) /\ Counted(e, d.cnt), s |-> d.s]
Next ==
  /\ bad = "" /\ i <= Len(Traces[tid].ev)
  /\ LET e == Traces[tid].ev[i]
         x == After2(e)
     IN IF e.r = <<-99>> THEN bad' = "panic" /\ UNCHANGED <<tid, i, st>>
        ELSE IF x.ok THEN i' = i + 1 /\ st' = x.s /\ UNCHANGED <<tid, bad>>
        ELSE bad' = e.o[1] /\ UNCHANGED <<tid, i, st>>
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
