---------------------------- MODULE Trace_GcHeap ----------------------------
(* Validates recorded executions of the real allocator against GcHeap.tla.   *)
EXTENDS GcHeap, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, i, st, bad
vars == <<tid, i, st, bad>>
Init == tid \in 1..Len(Traces) /\ i = 1 /\ bad = "" /\ st = HInit(Traces[tid].f0)
Next ==
  /\ bad = "" /\ i <= Len(Traces[tid].ev)
  /\ LET e == Traces[tid].ev[i]
         S == HStep(st, e)
         G == {x \in S : HObsOk(x, e)}
     IN IF G = {} THEN /\ bad' = IF S = {} THEN "result" ELSE "observation"
                       /\ UNCHANGED <<tid, i, st>>
        ELSE \E x \in G : st' = x /\ i' = i + 1 /\ UNCHANGED <<tid, bad>>
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
==============================================================================
