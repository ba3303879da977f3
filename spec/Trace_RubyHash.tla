--------------------------- MODULE Trace_RubyHash ---------------------------
(* Recorded histories of Hash objects against RubyHash.                      *)
EXTENDS RubyHash, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, i, st, bad
vars == <<tid, i, st, bad>>
Init == tid \in 1..Len(Traces) /\ i = 1 /\ bad = "" /\ st = [h |-> [r \in 1..3 |-> Empty], outer |-> <<>>, dig |-> {}]
\* user code raised: nothing has changed
Next ==
  /\ bad = "" /\ i <= Len(Traces[tid].ev)
  /\ LET e == Traces[tid].ev[i]
         r == e.o[2][1]
         fresh == e.o[1] \in {"new", "dup", "copy"}
         D == IF e.o[1] = "digest" /\ e.f = 0 THEN (IF e.r[1] = "val" THEN Digested(st, r, e.r[2][1]) ELSE {}) ELSE {}
         x == IF e.f = 1 THEN [s |-> st, r |-> <<"err", <<>>>>]
              ELSE IF e.o[1] = "digest" THEN (IF D = {} THEN [s |-> st, r |-> <<"digest", <<>>>>] ELSE [s |-> CHOOSE z \in D : TRUE, r |-> e.r])
              ELSE Step(st, e.o)
         why == IF x.r # e.r THEN "answer"
                ELSE IF ~fresh /\ e.o[1] # "nest" /\ ~Told(st.h[r], x.s.h[r], e.w) THEN "barrier"
                ELSE Shows(x.s.h[r], e, Traces[tid].p)
     IN IF why = "" THEN st' = x.s /\ i' = i + 1 /\ UNCHANGED <<tid, bad>>
        ELSE bad' = why /\ UNCHANGED <<tid, i, st>>
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
