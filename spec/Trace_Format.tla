---------------------------- MODULE Trace_Format ----------------------------
(* Recorded calls of sprintf against Format.                                 *)
EXTENDS Format, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, i, bad
vars == <<tid, i, bad>>
Init == tid \in 1..Len(Traces) /\ i = 1 /\ bad = ""
Why(e) ==
  LET x == SprintfStrict(e.f, e.a, e.b = 1, e.d = 1)
  IN IF e.r[1] = "panic" THEN "panic"
     ELSE IF x.e # "" THEN (IF e.r[1] # "err" THEN "accepted" ELSE IF Admits(x.e, e.r[2]) THEN "" ELSE "error")
     ELSE IF e.r[1] # "ok" THEN "refused"
     ELSE IF e.o \in x.ts THEN "" ELSE "text"
Next ==
  /\ bad = "" /\ i <= Len(Traces[tid].ev)
  /\ LET why == Why(Traces[tid].ev[i])
     IN IF why = "" THEN i' = i + 1 /\ UNCHANGED <<tid, bad>>
        ELSE bad' = why /\ UNCHANGED <<tid, i>>
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
