---------------------------- MODULE Trace_Naming ----------------------------
(* Recorded histories of modules that become constants of each other.        *)
EXTENDS Naming, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, i, st, bad
vars == <<tid, i, st, bad>>
Init == tid \in 1..Len(Traces) /\ i = 1 /\ bad = "" /\ st = Start
Next ==
  /\ bad = "" /\ i <= Len(Traces[tid].ev)
  /\ LET e == Traces[tid].ev[i] IN
     IF "panic" \in DOMAIN e.d THEN bad' = "panic" /\ UNCHANGED <<tid, i, st>>
     ELSE LET nm == [x \in First..Len(e.d.names) + First - 1 |-> e.d.names[x - First + 1]]
              x == Does(st, e.o, nm)
              why == IF x.r # e.r THEN "answer"
                     ELSE IF ~x.ok THEN "name"
                     ELSE IF \E y \in All(x.st) : x.st.k[y].stay # e.d.stay[y - First + 1] THEN "for good or not"
                     ELSE IF ~Sound(st, x.st) THEN "unsound"
                     ELSE ""
          IN IF why = "" THEN i' = i + 1 /\ st' = x.st /\ UNCHANGED <<tid, bad>>
             ELSE bad' = why /\ UNCHANGED <<tid, i, st>>
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
