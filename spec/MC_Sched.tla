------------------------------ MODULE MC_Sched ------------------------------
(***************************************************************************)
(* All behaviours of the scheduler specification for a few threads making  *)
(* a few calls, and what must hold in them.                                *)
(***************************************************************************)
EXTENDS Sched
CONSTANTS Calls, Menu
VARIABLES s, made, woken
vars == <<s, made, woken>>
(* woken: threads some other thread has woken or interrupted since they parked *)
Init == s = Fresh /\ made = 0 /\ woken = {}
Ops(t) ==
  LET Others == Alive(s) \ {t}
  IN CASE Menu = "wake" -> {<<"pass", <<>>>>, <<"sleep", <<-1>>>>, <<"sleep", <<1>>>>, <<"work", <<1>>>>} \cup {<<"wakeup", <<u>>>> : u \in Others} \cup {<<"wakep", <<u>>>> : u \in Others}
       [] Menu = "join" -> {<<"pass", <<>>>>, <<"sleep", <<1>>>>} \cup {<<"join", <<u, d>>>> : u \in {v \in Thr : s.th[v].st # "none"} \ {t}, d \in {-1, 1}} \cup {<<"kill", <<u>>>> : u \in Others \ {1}}
       [] Menu = "raise" -> {<<"pass", <<>>>>, <<"sleep", <<-1>>>>, <<"sleep", <<1>>>>, <<"mask", <<1, 1>>>>, <<"mask", <<1, 2>>>>}
                            \cup (IF s.th[t].masks # <<>> THEN {<<"unmask", <<>>>>} ELSE {})
                            \cup {<<"raise", <<u, 2, made>>>> : u \in Others} \cup {<<"kill", <<u>>>> : u \in Others \ {1}}
       [] Menu = "io" -> {<<"wait", <<-1, 1>>>>, <<"wait", <<2, 1>>>>, <<"sleep", <<1>>>>, <<"sleep", <<-1>>>>, <<"feed", <<1>>>>, <<"eat", <<1>>>>, <<"plan", <<1, 1>>>>, <<"pass", <<>>>>}
NewT == {u \in Thr : s.th[u].st = "none"}
Act(op, t) == IF op[1] \in {"wakeup", "wakep", "raise", "kill"} THEN {op[2][1]} ELSE {}
Next ==
  \/ /\ (s.exp[1] = "start" \/ (s.exp[1] = "ret" /\ s.exp[3][1] \notin {"fatal", "exit"}))
     /\ s' = [s EXCEPT !.exp = <<"go", s.exp[2]>>]
     /\ woken' = woken \ {s.exp[2]} /\ made' = made
  \/ /\ s.exp[1] = "go" /\ made < Calls
     /\ LET t == s.exp[2]
        IN \E op \in Ops(t) \cup (IF NewT # {} /\ t = 1 THEN {<<"spawn", <<Min(NewT), 0>>>>} ELSE {}) :
             /\ s' \in Do(s, t, op) /\ made' = made + 1 /\ woken' = woken \cup Act(op, t)
  \/ /\ s.exp[1] = "go" /\ s.exp[2] # 1
     /\ \E r \in {<<"ok", <<7>>>>} \cup (IF s.th[s.exp[2]].killed THEN {<<"kill", <<>>>>} ELSE {}) :
          s' \in Step(s, "end", s.exp[2], s.now, <<>>, r)
     /\ UNCHANGED <<made, woken>>
Spec == Init /\ [][Next]_vars

Count(t) == Cardinality({k \in 1..Len(s.ready) : s.ready[k] = t})
Fatal == s.exp[1] = "ret" /\ s.exp[3][1] = "fatal"
(* every runnable thread is queued exactly once, nobody else is *)
Queued == \A t \in Thr : Count(t) = IF t # 1 /\ t # s.cur /\ s.th[t].st \in {"new", "run"} THEN 1 ELSE 0
Current == s.th[s.cur].st = "run" \/ Fatal \/ s.exp[1] = "stuck"
(* nobody sleeps through an interrupt, the end of the thread it joins, or its own limit while others ran *)
NotMissed == \A t \in Thr : Parked(s.th[t]) => /\ May(s.th[t], TRUE) = {}
                                              /\ (s.th[t].st = "join" => s.th[s.th[t].on].st # "dead")
(* deadlock is reported only when nobody can ever run *)
Truthful == Fatal => /\ s.ready = <<>>
                     /\ \A t \in Alive(s) : Parked(s.th[t]) /\ s.th[t].dl < 0 /\ s.th[t].st # "io"
(* a sleep that returns without an error has lasted its time, or somebody woke the thread, or it had a permit *)
SleptOk(x, t) == x.exp[1] = "ret" /\ x.exp[2] = t /\ x.th[t].op[1] = "sleep" /\ x.exp[3][1] = "ok"
Enough(x, t) == x.th[t].op[2][1] >= 0 /\ x.now - x.th[t].from >= x.th[t].op[2][1]
Lasted == [][\A t \in Thr : (SleptOk(s', t) /\ s.exp[1] # "ret") => (t \in woken' \/ s.th[t].permit \/ Enough(s', t))]_vars
(* what was queued is delivered, still queued, or dropped with its dead thread *)
Pending == \A t \in Thr : s.th[t].st = "dead" => s.th[t].pend = <<>>
=============================================================================
