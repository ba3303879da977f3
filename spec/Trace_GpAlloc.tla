--------------------------- MODULE Trace_GpAlloc ---------------------------
(* Decides recorded outputs of the allocator (event "run") and histories of    *)
(* its register file (all other events).                                      *)
EXTENDS GpAlloc, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, i, st, bad
vars == <<tid, i, st, bad>>
Init == tid \in 1..Len(Traces) /\ i = 1 /\ bad = "" /\ st = FInit(Traces[tid].g)
Next ==
  /\ bad = "" /\ i <= Len(Traces[tid].ev)
  /\ LET T == Traces[tid]
         e == T.ev[i]
         G == IF e.o[1] = "run"
              THEN IF e.r[1] = "ok" /\ RunOk(T.u, T.g, e.o[2], e.r[2]) THEN {st} ELSE {}
              ELSE {x \in FStep(st, e.o, e.r) : FLook(x, T.u, e.s)}
     IN IF G = {} THEN bad' = "answer" /\ UNCHANGED <<tid, i, st>>
        ELSE \E x \in G : st' = x /\ i' = i + 1 /\ UNCHANGED <<tid, bad>>
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
==============================================================================
