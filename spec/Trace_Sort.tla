----------------------------- MODULE Trace_Sort -----------------------------
EXTENDS Sort, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, i, bad
vars == <<tid, i, bad>>
Init == tid \in 1..Len(Traces) /\ i = 1 /\ bad = ""
EventOk(e) == IF e.o[1] = "cmpint" THEN MeaningOk(e.o[2], e.r, e.c) ELSE SortOk(e.o[2], e.r, e.c, e.w)
Next ==
  /\ bad = "" /\ i <= Len(Traces[tid].ev)
  /\ IF EventOk(Traces[tid].ev[i]) THEN i' = i + 1 /\ UNCHANGED <<tid, bad>>
     ELSE bad' = "answer" /\ UNCHANGED <<tid, i>>
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
==============================================================================
