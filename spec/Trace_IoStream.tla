--------------------------- MODULE Trace_IoStream ---------------------------
(* Recorded histories of IO streams against IoStream.  st is the set of all  *)
(* states the history so far may have led to.                                *)
EXTENDS IoStream, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, i, st, bad
vars == <<tid, i, st, bad>>
Init == tid \in 1..Len(Traces) /\ i = 1 /\ bad = "" /\ st = {Start(Traces[tid].k, Traces[tid].d)}
Next ==
  /\ bad = "" /\ i <= Len(Traces[tid].ev)
  /\ LET e == Traces[tid].ev[i]
         G == UNION {Step(s, e.o, e.r, e.a) : s \in {s \in st : Excused(s, e.o, e.r, e.x) \/ s.loose}}
         H == {s \in G : Shows(s, e.c)}
     IN IF H # {} THEN st' = H /\ i' = i + 1 /\ UNCHANGED <<tid, bad>>
        ELSE /\ bad' = IF G = {} THEN "answer" ELSE "content"
             /\ UNCHANGED <<tid, i, st>>
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
