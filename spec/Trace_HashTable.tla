--------------------------- MODULE Trace_HashTable ---------------------------
(* Validates recorded executions of the real HashTable against HashTable.tla. *)
(* Event: [o |-> op, f |-> failure plan, p |-> plan reached, r |-> result,     *)
(* s |-> observation].                                                         *)
EXTENDS HashTable, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, i, st, bad
vars == <<tid, i, st, bad>>
Init == tid \in 1..Len(Traces) /\ i = 1 /\ bad = "" /\ st = HInit
Next ==
  /\ bad = "" /\ i <= Len(Traces[tid].ev)
  /\ LET T == Traces[tid]
         e == T.ev[i]
         S == HStep(T.u, st, e.o, e.f, e.p, e.r, e.s)
         G == {x \in S : HObsOk(T.u, x, e.s)}
     IN IF G = {} THEN /\ bad' = IF S = {} THEN "result" ELSE "observation"
                       /\ UNCHANGED <<tid, i, st>>
        ELSE \E x \in G : st' = x /\ i' = i + 1 /\ UNCHANGED <<tid, bad>>
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
==============================================================================
