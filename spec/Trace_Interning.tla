--------------------------- MODULE Trace_Interning ---------------------------
EXTENDS Interning, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, i, st, bad
vars == <<tid, i, st, bad>>
Init == tid \in 1..Len(Traces) /\ i = 1 /\ bad = "" /\ st = Fresh
Next ==
  /\ bad = "" /\ i <= Len(Traces[tid].ev)
  /\ LET e == Traces[tid].ev[i]
         G == Step(st, e.o, e.r)
     IN IF G = {} THEN bad' = "answer" /\ UNCHANGED <<tid, i, st>>
        ELSE \E x \in G : st' = x /\ i' = i + 1 /\ UNCHANGED <<tid, bad>>
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
==============================================================================
