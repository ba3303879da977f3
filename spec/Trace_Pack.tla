----------------------------- MODULE Trace_Pack -----------------------------
(* Recorded calls of pack and unpack against Pack.                           *)
EXTENDS Pack, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, i, bad
vars == <<tid, i, bad>>
Init == tid \in 1..Len(Traces) /\ i = 1 /\ bad = ""
SameValue(x, y) == x[1] = y[1] /\ (IF x[1] = 3 THEN SameFloat(x[2], y[2]) ELSE x[2] = y[2])
Same(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : SameValue(x[k], y[k])
\* a template with M is one directive
Quoted(t) == Len(t) = 1 /\ t[1][1] = "M"
PackWhy(t, vals, buf, r) ==
  LET x == PackAll(t, vals, buf)
  IN IF x.e # "" THEN (IF r[1] = "err" /\ (Refused(t) # "" \/ r[2] = x.e) THEN "" ELSE "error")
     ELSE IF r[1] # "ok" THEN "answer"
     ELSE IF Quoted(t)
       THEN (IF QuotedOk(r[3], IF Count(t[1]) <= 1 THEN 72 ELSE Count(t[1]), vals[1][2]) THEN "" ELSE "quoted")
     ELSE IF r[3] # x.b THEN "bytes"
     ELSE IF (\A k \in 1..Len(t) : t[k][1] \notin Moves) /\ r[2] # -1 /\ r[2] # Encoding(t) THEN "encoding"
     ELSE ""
UnpackWhy(b, t, once, base, r) ==
  LET x == Unpack(b, t, once = 1, base)
      v == IF once = 1 THEN (IF x.v = <<>> THEN <<Nil>> ELSE <<x.v[1]>>) ELSE x.v
  IN IF x.e = "incomplete" THEN ""
     ELSE IF once = 1 /\ x.v # <<>> /\ x.v[1] = Nil THEN ""
     ELSE IF x.e # "" THEN (IF r[1] = "err" /\ (Refused(t) # "" \/ r[2] = x.e) THEN "" ELSE "error")
     ELSE IF r[1] # "ok" THEN "answer"
     ELSE IF Same(v, r[2]) THEN "" ELSE "values"
Next ==
  /\ bad = "" /\ i <= Len(Traces[tid].ev)
  /\ LET e == Traces[tid].ev[i]
         o == e.o
         why == IF o[1] = "pack" THEN PackWhy(o[2], o[3], o[4], e.r) ELSE UnpackWhy(o[2], o[3], o[4], o[5], e.r)
     IN IF why = "" THEN i' = i + 1 /\ UNCHANGED <<tid, bad>>
        ELSE bad' = why /\ UNCHANGED <<tid, i>>
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
