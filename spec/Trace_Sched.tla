---------------------------- MODULE Trace_Sched ----------------------------
EXTENDS Sched, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, i, st, bad
vars == <<tid, i, st, bad>>
Init == tid \in 1..Len(Traces) /\ i = 1 /\ bad = "" /\ st = {Fresh}
Next ==
  /\ bad = "" /\ i <= Len(Traces[tid].ev)
  /\ LET e == Traces[tid].ev[i]
         S == UNION {Step(s, e.k, e.t, e.n, e.o, e.r) : s \in st}
     IN IF S = {} THEN bad' = ToString({x.exp : x \in st}) /\ UNCHANGED <<tid, i, st>>
        ELSE st' = S /\ i' = i + 1 /\ UNCHANGED <<tid, bad>>
Spec == Init /\ [][Next]_vars
(* the history ends while someone may go on, or because nobody ever can *)
Over == LET h == Traces[tid].how
        IN CASE h = "end" -> \E s \in st : s.exp = <<"go", 1>>
             [] h = "stuck" -> \E s \in st : s.exp = <<"stuck">>
             [] OTHER -> FALSE
Accepted == bad = "" /\ (i > Len(Traces[tid].ev) => Over)
=============================================================================
