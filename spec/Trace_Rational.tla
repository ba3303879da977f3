--------------------------- MODULE Trace_Rational ---------------------------
(* Recorded operations on rationals against Rational.                        *)
EXTENDS Rational, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, i, bad
vars == <<tid, i, bad>>
Init == tid \in 1..Len(Traces) /\ i = 1 /\ bad = ""
Half == <<"up", "up", "down", "even">>
Bit(b) == IF b THEN 1 ELSE 0
Expected(o) ==
  LET x == Norm(o[2], o[3])
      y == Norm(o[4], o[5])
  IN CASE o[1] = "new" -> x
       [] o[1] = "text" -> x
       [] o[1] = "add" -> Add(x, y)
       [] o[1] = "sub" -> Sub(x, y)
       [] o[1] = "mul" -> Mul(x, y)
       [] o[1] = "div" -> IF o[4] = 0 THEN <<>> ELSE Mul(x, Inv(y))
       [] o[1] = "cmp" -> <<Cmp(x, y), Bit(x = y)>>
       [] o[1] = "one" -> Neg(x) \o <<Abs(x[1]), x[2]>> \o <<TruncI(x), Bit(x[1] = 0), Bit(x[1] < 0)>>
       [] o[1] \in {"floor", "ceil", "truncate"} -> Digits(o[1], "", x, o[4])
       [] o[1] = "round" -> Digits("round", Half[o[5] + 1], x, o[4])
       [] o[1] = "simplest" -> Simplest(x, y)
       [] o[1] = "float" -> Two(o[2], o[3]) \o <<1>>
Next ==
  /\ bad = "" /\ i <= Len(Traces[tid].ev)
  /\ LET e == Traces[tid].ev[i]
     IN IF e.r = Expected(e.o) THEN i' = i + 1 /\ UNCHANGED <<tid, bad>>
        ELSE bad' = (IF e.r = <<-99, -99, -99>> THEN "panic" ELSE e.o[1]) /\ UNCHANGED <<tid, i>>
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
