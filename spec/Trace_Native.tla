---------------------------- MODULE Trace_Native ----------------------------
(***************************************************************************)
(* Recorded background calls: each returns its own result, unless an       *)
(* interrupt sent to its thread and not yet delivered cuts it short; every *)
(* history ends, and no result is left in the table.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, i, st, bad
vars == <<tid, i, st, bad>>
Thr == 1..5
Fresh == [doing |-> [t \in Thr |-> <<>>], sent |-> [t \in Thr |-> <<>>], began |-> {1}, over |-> {}]
Init == tid \in 1..Len(Traces) /\ i = 1 /\ bad = "" /\ st = Fresh
Drop(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
Result(op) == CASE op[1] = "native" -> op[2] [] op[1] = "join" -> <<1>> [] OTHER -> <<>>
Call(s, e) ==
  LET a == [s EXCEPT !.doing[e.t] = e.o]
      u == e.o[2][1]
  IN CASE e.o[1] = "raise" -> [a EXCEPT !.sent[u] = Append(@, <<"err", <<e.o[2][2], e.o[2][3]>>>>)]
       [] e.o[1] = "kill" -> [a EXCEPT !.sent[u] = Append(@, <<"kill", <<>>>>)]
       [] OTHER -> a
(* the state after a return, in a one-element sequence; empty if the return is wrong *)
(* ended, or interrupted before it began *)
Gone(s, u) == u \in s.over \/ (u \notin s.began /\ s.sent[u] # <<>>)
Back(s, e) ==
  LET o == s.doing[e.t]
      q == s.sent[e.t]
      a == [s EXCEPT !.doing[e.t] = <<>>]
  IN IF e.r[1] = "left" THEN IF e.r[2] = <<0>> THEN <<s>> ELSE <<>>
     ELSE IF o = <<>> THEN <<>>
     ELSE IF e.r = <<"ok", Result(o)>> THEN IF o[1] = "join" /\ ~Gone(s, o[2][1]) THEN <<>> ELSE <<a>>
     (* interrupts arrive in the order sent *)
     ELSE IF q # <<>> /\ e.r = q[1] THEN <<[a EXCEPT !.sent[e.t] = Tail(q)]>>
     ELSE <<>>
Next ==
  /\ bad = "" /\ i <= Len(Traces[tid].ev)
  /\ LET e == Traces[tid].ev[i]
         S == CASE e.k = "call" -> <<Call(st, e)>>
                [] e.k = "ret" -> Back(st, e)
                [] e.k = "end" -> <<[st EXCEPT !.over = @ \cup {e.t}]>>
                [] OTHER -> IF Gone(st, e.t) THEN <<>> ELSE <<[st EXCEPT !.began = @ \cup {e.t}]>>
     IN IF S = <<>> THEN bad' = "answer" /\ UNCHANGED <<tid, i, st>>
        ELSE st' = S[1] /\ i' = i + 1 /\ UNCHANGED <<tid, bad>>
Spec == Init /\ [][Next]_vars
Accepted == bad = "" /\ (i > Len(Traces[tid].ev) => Traces[tid].how = "end")
=============================================================================
