--------------------------- MODULE Trace_PollFlag ---------------------------
EXTENDS PollFlag, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, i, st, doing, bad
vars == <<tid, i, st, doing, bad>>
Init == tid \in 1..Len(Traces) /\ i = 1 /\ bad = "" /\ st = L!Start([Fresh EXCEPT !.env = Traces[tid].env]) /\ doing = [t \in Thr |-> <<"", <<>>>>]
Next ==
  /\ bad = "" /\ i <= Len(Traces[tid].ev)
  /\ LET e == Traces[tid].ev[i] IN
     IF e.k = "call" THEN st' = L!Called(st, e.t, e.o) /\ doing' = [doing EXCEPT ![e.t] = e.o] /\ i' = i + 1 /\ UNCHANGED <<tid, bad>>
     ELSE LET S == L!Returned(st, e.t, e.r)
          IN IF S = {} \/ e.s # Text(doing[e.t]) THEN bad' = "answer" /\ UNCHANGED <<tid, i, st, doing>>
             ELSE st' = S /\ i' = i + 1 /\ UNCHANGED <<tid, doing, bad>>
Spec == Init /\ [][Next]_vars
Accepted == bad = "" /\ (i > Len(Traces[tid].ev) => Traces[tid].how = "end")
==============================================================================
