---------------------------- MODULE PreemptTimer ----------------------------
(***************************************************************************)
(* Starting and stopping the preemption timer, at the grain of atomic       *)
(* steps.  The interpreter raises and lowers the number of live threads;    *)
(* each timer thread sleeps, decides whether to exit, ticks.                *)
(* Atomic = TRUE: the decision to exit is one step from "stopping" to       *)
(* "idle".  Atomic = FALSE: a stop flag read by the timer and a question    *)
(* whether the thread has finished, as the code once had; TLC then finds    *)
(* the run without a timer.                                                 *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Atomic, Changes
VARIABLES state, stop, want, timers, left, pc
vars == <<state, stop, want, timers, left, pc>>
(* timers: each "sleep", "leaving" (decided, not finished), "gone" *)
Init == state = "idle" /\ stop = FALSE /\ want = FALSE /\ timers = <<>> /\ left = Changes /\ pc = "idle"
Running == {k \in DOMAIN timers : timers[k] = "sleep"}
Add == timers' = [k \in 1..(Cardinality(DOMAIN timers) + 1) |-> IF k \in DOMAIN timers THEN timers[k] ELSE "sleep"]
Begin ==
  /\ pc = "idle" /\ ~want /\ left > 0 /\ left' = left - 1 /\ want' = TRUE
  /\ IF Atomic
     THEN /\ state' = "running"
          /\ IF state = "idle" THEN Add ELSE UNCHANGED timers
          /\ UNCHANGED <<stop, pc>>
     ELSE stop' = FALSE /\ pc' = "ask" /\ UNCHANGED <<state, timers>>
Ask ==
  /\ pc = "ask" /\ pc' = "idle"
  /\ IF \E k \in DOMAIN timers : timers[k] # "gone" THEN UNCHANGED timers ELSE Add
  /\ UNCHANGED <<state, stop, want, left>>
End ==
  /\ pc = "idle" /\ want /\ left > 0 /\ left' = left - 1 /\ want' = FALSE
  /\ state' = (IF Atomic /\ state = "running" THEN "stopping" ELSE state)
  /\ stop' = ~Atomic
  /\ UNCHANGED <<timers, pc>>
Decide(k) ==
  /\ timers[k] = "sleep"
  /\ IF Atomic THEN state = "stopping" /\ state' = "idle" ELSE stop /\ UNCHANGED state
  /\ timers' = [timers EXCEPT ![k] = "leaving"] /\ UNCHANGED <<stop, want, left, pc>>
Finish(k) == timers[k] = "leaving" /\ timers' = [timers EXCEPT ![k] = "gone"] /\ UNCHANGED <<state, stop, want, left, pc>>
Next == Begin \/ Ask \/ End \/ \E k \in DOMAIN timers : Decide(k) \/ Finish(k)
Spec == Init /\ [][Next]_vars
(* a timer runs whenever one is wanted, and never two *)
Ticking == want /\ pc = "idle" => Running # {}
One == Atomic => Cardinality(Running) <= 1
=============================================================================
