--------------------------- MODULE Trace_HashSet ---------------------------
(* Validates recorded executions of the real HashSet against HashSet.tla. *)
(* Event: [o |-> op, f |-> failure plan, p |-> plan reached, r |-> result,     *)
(* s |-> observation].                                                         *)
EXTENDS HashSet, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, i, st, bad
vars == <<tid, i, st, bad>>
Init == tid \in 1..Len(Traces) /\ i = 1 /\ bad = "" /\ st = SInit
Next ==
  /\ bad = "" /\ i <= Len(Traces[tid].ev)
  /\ LET T == Traces[tid]
         e == T.ev[i]
         S == SStep(T.u, st, e.o, e.f, e.p, e.r, e.s)
         G == {x \in S : SObsOk(T.u, x, e.s)}
     IN IF G = {} THEN /\ bad' = IF S = {} THEN "result" ELSE "observation"
                       /\ UNCHANGED <<tid, i, st>>
        ELSE \E x \in G : st' = x /\ i' = i + 1 /\ UNCHANGED <<tid, bad>>
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
==============================================================================
