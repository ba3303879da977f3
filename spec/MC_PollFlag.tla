---------------------------- MODULE MC_PollFlag ----------------------------
(***************************************************************************)
(* The poll protocol over PollFlag: an interpreter polls for ever, its      *)
(* timer ticks, signals arrive in other threads, and the allocator asks for *)
(* collections.  The poll consumes the preemption lane, clears the signal   *)
(* lane, drains the pending signals, and answers a collection request.      *)
(* With ClearFirst = FALSE the lane is cleared after the drain, and TLC     *)
(* finds the lost signal.                                                   *)
(***************************************************************************)
EXTENDS PollFlag
CONSTANTS ClearFirst, Signals, Handlers
VARIABLES m, p, pc, seen, sent
vars == <<m, p, pc, seen, sent>>
Poll == IF ClearFirst THEN <<"consume", "clearsig", "take", "gcreq">> ELSE <<"consume", "take", "clearsig", "gcreq">>
Init ==
  /\ m = [Fresh EXCEPT !.own[1] = 1, !.sig = 1, !.flag[1] = 1, !.run[1] = TRUE]
  /\ p = [t \in Handlers |-> <<>>] /\ pc = 0 /\ seen = {} /\ sent = {}
Deliver(t, s) == p[t] = <<>> /\ s \notin sent
  /\ p' = [p EXCEPT ![t] = <<"handler", <<s>>>>] /\ sent' = sent \cup {s} /\ UNCHANGED <<m, pc, seen>>
Handle(t) == p[t] # <<>> /\ \E d \in Do(m, t, p[t]) :
  m' = d[1] /\ p' = [p EXCEPT ![t] = IF d[2] = "ret" THEN <<>> ELSE d[3]] /\ UNCHANGED <<pc, seen, sent>>
(* the poll is entered only while the word is not zero *)
Enter == pc = 0 /\ m.w[1] # {} /\ pc' = 1 /\ UNCHANGED <<m, p, seen, sent>>
Alloc == pc = 0 /\ m' = Set(m, 1, "gc") /\ UNCHANGED <<p, pc, seen, sent>>
Step == pc \in 1..4 /\ \E d \in Do(m, 1, <<Poll[pc], <<>>>>) :
  /\ m' = d[1]
  /\ seen' = IF Poll[pc] = "take" THEN seen \cup {d[3][2][k] : k \in DOMAIN d[3][2]} ELSE seen
  /\ pc' = IF pc < 4 THEN pc + 1 ELSE IF d[3][2] = <<1>> THEN 5 ELSE 0
  /\ UNCHANGED <<p, sent>>
Collect == pc = 5 /\ m' = Clear(m, 1, "gc") /\ pc' = 0 /\ UNCHANGED <<p, seen, sent>>
Ticks == \E x \in Tau(m) : m' = x /\ UNCHANGED <<p, pc, seen, sent>>
Next == Enter \/ Alloc \/ Step \/ Collect \/ Ticks \/ \E t \in Handlers : Handle(t) \/ \E s \in Signals : Deliver(t, s)
Spec == Init /\ [][Next]_vars /\ WF_vars(Enter) /\ WF_vars(Step) /\ WF_vars(Collect) /\ \A t \in Handlers : WF_vars(Handle(t))
Handling == \E t \in Handlers : p[t] # <<>>
(* a recorded signal keeps the word armed until a drain is about to see it *)
Armed == m.pend # {} => "sig" \in m.w[1] \/ Handling \/ (pc \in 1..3 /\ Poll[pc] = "take")
Kept == seen \cup m.pend \cup {p[t][2][1] : t \in {u \in Handlers : p[u] # <<>> /\ p[u][1] = "handler"}} = sent
(* every signal is eventually drained *)
Drained == \A s \in Signals : s \in sent ~> s \in seen
=============================================================================
