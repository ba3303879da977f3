----------------------------- MODULE Trace_Glob -----------------------------
(* Decides the recorded answers of the matcher and of the brace expander.      *)
EXTENDS Glob, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, i, bad
vars == <<tid, i, bad>>
Init == tid \in 1..Len(Traces) /\ i = 1 /\ bad = ""
Next ==
  /\ bad = "" /\ i <= Len(Traces[tid].ev)
  /\ LET T == Traces[tid]
         e == T.ev[i]
         N == IF T.n = <<>> THEN Traces[1].n ELSE T.n
         ok == IF e.o[1] = "match" THEN MatchOk(T.p, N, e.o[2][1], e.r) ELSE ExpandOk(T.p, e.o[2][1] = 1, e.r)
     IN IF ok THEN i' = i + 1 /\ UNCHANGED <<tid, bad>>
        ELSE bad' = "answer" /\ UNCHANGED <<tid, i>>
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
==============================================================================
