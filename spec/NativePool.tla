----------------------------- MODULE NativePool -----------------------------
(***************************************************************************)
(* How background calls are handed back: workers put results in a table    *)
(* and a byte in one shared pipe; waiters park on the pipe, and a woken    *)
(* one drains it and looks for its own result.  Green threads run one at a *)
(* time and switch only when they park or return; workers interleave       *)
(* freely.  A waiter may be interrupted while it is parked or queued: it   *)
(* gives its call up.                                                      *)
(* HandOn: a waiter that drained bytes wakes the others still parked.      *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Waiters, Calls, HandOn, Interrupts
VARIABLES w, run, table, orphan, work, pipe, harm
vars == <<w, run, table, orphan, work, pipe, harm>>
(* w[t]: [at, k]: k-th call; at: "idle" (about to submit), "look", "parked", "woken" (queued), "drain", "over" *)
Id(t, k) == <<t, k>>
Init == /\ w = [t \in Waiters |-> [at |-> "idle", k |-> 1]]
        /\ run \in Waiters
        /\ table = {} /\ orphan = {} /\ work = {} /\ pipe = 0 /\ harm = Interrupts
Me == w[run]
My == Id(run, Me.k)
Runnable == {t \in Waiters : w[t].at \in {"idle", "look", "woken", "drain"}}
(* after the running thread parked or finished somebody else may run *)
Switch(v) == LET R == {t \in Waiters : v[t].at \in {"idle", "look", "woken", "drain"}}
             IN IF R = {} THEN run' = run ELSE run' \in R
Submit == /\ Me.at = "idle"
          /\ work' = work \cup {<<My, "busy">>}
          /\ w' = [w EXCEPT ![run].at = "look"]
          /\ UNCHANGED <<run, table, orphan, pipe, harm>>
NextCall(v, t) == IF v[t].k = Calls THEN [v EXCEPT ![t].at = "over"] ELSE [v EXCEPT ![t] = [at |-> "idle", k |-> v[t].k + 1]]
Look == /\ Me.at = "look"
        /\ IF My \in table
           THEN /\ table' = table \ {My}
                /\ w' = NextCall(w, run)
                /\ IF w'[run].at = "over" THEN Switch(w') ELSE run' = run
           ELSE /\ w' = [w EXCEPT ![run].at = "parked"]
                /\ table' = table
                /\ Switch(w')
        /\ UNCHANGED <<orphan, work, pipe, harm>>
Resume == /\ Me.at = "woken"
          /\ w' = [w EXCEPT ![run].at = "drain"]
          /\ UNCHANGED <<run, table, orphan, work, pipe, harm>>
(* resumed by an interrupt instead: the call is given up *)
GiveUp == /\ Me.at = "woken" /\ harm > 0 /\ harm' = harm - 1
          /\ table' = table \ {My}
          /\ orphan' = IF My \in table THEN orphan ELSE orphan \cup {My}
          /\ w' = NextCall(w, run)
          /\ IF w'[run].at = "over" THEN Switch(w') ELSE run' = run
          /\ UNCHANGED <<work, pipe>>
Drain == /\ Me.at = "drain"
         /\ pipe' = 0
         /\ w' = [t \in Waiters |-> IF t = run THEN [w[t] EXCEPT !.at = "look"]
                                    ELSE IF HandOn /\ pipe > 0 /\ w[t].at = "parked" THEN [w[t] EXCEPT !.at = "woken"] ELSE w[t]]
         /\ UNCHANGED <<run, table, orphan, work, harm>>
(* the scheduler looks at the pipe between threads, or when nobody can run *)
Poll == /\ Me.at \in {"parked", "over", "woken"} /\ pipe > 0
        /\ \E t \in Waiters : w[t].at = "parked"
        /\ w' = [t \in Waiters |-> IF w[t].at = "parked" THEN [w[t] EXCEPT !.at = "woken"] ELSE w[t]]
        /\ Switch(w')
        /\ UNCHANGED <<table, orphan, work, pipe, harm>>
Strike == /\ harm > 0 /\ \E t \in Waiters \ {run} : w[t].at = "parked" /\ w' = [w EXCEPT ![t].at = "woken"]
          /\ UNCHANGED <<table, orphan, work, pipe, harm>>
          /\ IF Me.at \in {"parked", "over"} THEN Switch(w') ELSE run' = run
Insert(c) == /\ <<c, "busy">> \in work
             /\ IF c \in orphan
                THEN /\ orphan' = orphan \ {c} /\ work' = work \ {<<c, "busy">>} /\ table' = table
                ELSE /\ orphan' = orphan /\ work' = (work \ {<<c, "busy">>}) \cup {<<c, "wrote">>} /\ table' = table \cup {c}
             /\ UNCHANGED <<w, run, pipe, harm>>
Write(c) == /\ <<c, "wrote">> \in work
            /\ work' = work \ {<<c, "wrote">>}
            /\ pipe' = pipe + 1
            /\ UNCHANGED <<w, run, table, orphan, harm>>
Ids == Waiters \X (1..Calls)
Next == Submit \/ Look \/ Resume \/ GiveUp \/ Drain \/ Poll \/ Strike \/ \E c \in Ids : Insert(c) \/ Write(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Submit) /\ WF_vars(Look) /\ WF_vars(Resume) /\ WF_vars(Drain) /\ WF_vars(Poll)
        /\ \A c \in Ids : WF_vars(Insert(c)) /\ WF_vars(Write(c))
(* nobody waits for ever, and nothing is left behind *)
Finished == \A t \in Waiters : w[t].at = "over"
Served == <>[]Finished
Clean == Finished /\ work = {} => table = {} /\ orphan = {}
(* a parked waiter whose result is there will be woken: by a byte, by the worker about to write it, or because somebody drains *)
Announced == \A t \in Waiters : w[t].at = "parked" /\ Id(t, w[t].k) \in table =>
               pipe > 0 \/ <<Id(t, w[t].k), "wrote">> \in work
=============================================================================
