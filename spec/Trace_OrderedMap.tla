-------------------------- MODULE Trace_OrderedMap --------------------------
(* Validates recorded executions of the real RubyMap.  Every line of the    *)
(* trace file is one history: [u |-> universe, ev |-> <<event, ...>>] with   *)
(* event = [o |-> op, f |-> failure plan, r |-> result, s |-> observation].  *)
(* All histories are checked in one run: `tid' picks one, `i' is the next    *)
(* event, `st' the model state, `bad' names what the model does not allow.   *)
EXTENDS OrderedMap, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, i, st, bad
vars == <<tid, i, st, bad>>
Init == /\ tid \in 1..Len(Traces) /\ i = 1 /\ bad = ""
        /\ st = [a |-> <<>>, b |-> <<>>]
Next ==
  /\ bad = "" /\ i <= Len(Traces[tid].ev)
  /\ LET T == Traces[tid]
         e == T.ev[i]
         S == Step(T.u, st, e.o, e.f, e.r)
         G == {x \in S : ObsOk(T.u, x, e.s)}
     IN IF G = {} THEN /\ bad' = IF S = {} THEN "result" ELSE "observation"
                       /\ UNCHANGED <<tid, i, st>>
        ELSE \E x \in G : st' = x /\ i' = i + 1 /\ UNCHANGED <<tid, bad>>
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
