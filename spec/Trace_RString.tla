--------------------------- MODULE Trace_RString ---------------------------
(* Recorded histories of strings against RString. After every step each live *)
(* string is shown: [number, encoding, class or -1, frozen, bytes...].       *)
EXTENDS RString, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, i, st, bad
vars == <<tid, i, st, bad>>
Init == tid \in 1..Len(Traces) /\ i = 1 /\ bad = "" /\ st = [k \in {} |-> 0]
\* why what is shown is not what there is
Differs(s, shown) ==
  IF {shown[k][1] : k \in 1..Len(shown)} # DOMAIN s THEN "strings"
  ELSE LET Bad(z) == LET x == s[z[1]] IN
                     IF SubSeq(z, 5, Len(z)) # x.b THEN "bytes"
                     ELSE IF z[2] # x.e THEN "encoding"
                     ELSE IF z[4] # (IF x.f THEN 1 ELSE 0) THEN "frozen"
                     ELSE IF z[3] # -1 /\ z[3] # x.c THEN "class" ELSE ""
           W == {Bad(shown[k]) : k \in 1..Len(shown)} \ {""}
       IN IF W = {} THEN "" ELSE CHOOSE w \in W : TRUE
Next ==
  /\ bad = "" /\ i <= Len(Traces[tid].ev)
  /\ LET e == Traces[tid].ev[i]
         x == Step(st, e.o)
         why == IF e.o[1] = "range"
                  THEN (IF e.r[1] = "val" /\ RangeOk(st[e.o[2][1]], e.o[2][2], e.o[2][3], e.r[2]) THEN Differs(x.s, e.s) ELSE "answer")
                ELSE IF x.r # e.r THEN "answer" ELSE Differs(x.s, e.s)
     IN IF why = "" THEN st' = x.s /\ i' = i + 1 /\ UNCHANGED <<tid, bad>>
        ELSE bad' = why /\ UNCHANGED <<tid, i, st>>
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
