------------------------------- MODULE Linear -------------------------------
(***************************************************************************)
(* Concurrent histories against a sequential specification.                 *)
(*                                                                          *)
(* A configuration is a state m of the object and, for every thread, what   *)
(* it is doing: nothing, an operation not yet (completely) taken effect, or *)
(* a result not yet returned.  Do(m, t, op) is the set of atomic effects of *)
(* t's operation op: <<m', "ret", result>> when it is complete,             *)
(* <<m', "more", rest>> when a further atomic effect is to follow.  Tau(m)  *)
(* is the set of states the object may enter by itself.                     *)
(* A history of calls and returns is explained as long as the set of        *)
(* configurations reachable along it is not empty.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Do(_, _, _), Tau(_), Threads
Idle == <<"idle">>
Start(m) == {[m |-> m, p |-> [t \in Threads |-> Idle]]}
Effects(c) ==
  {[c EXCEPT !.m = x] : x \in Tau(c.m)} \cup
  UNION { IF c.p[t][1] # "call" THEN {}
          ELSE {[c EXCEPT !.m = d[1], !.p[t] = IF d[2] = "ret" THEN <<"done", d[3]>> ELSE <<"call", d[3]>>]
                 : d \in Do(c.m, t, c.p[t][2])}
          : t \in Threads }
RECURSIVE Close(_, _)
Close(all, new) ==
  IF new = {} THEN all
  ELSE LET n == (UNION {Effects(c) : c \in new}) \ all IN Close(all \cup n, n)
Closed(S) == Close(S, S)
Called(S, t, op) == {[c EXCEPT !.p[t] = <<"call", op>>] : c \in {x \in S : x.p[t] = Idle}}
Returned(S, t, r) == {[c EXCEPT !.p[t] = Idle] : c \in {x \in Closed(S) : x.p[t] = <<"done", r>>}}
=============================================================================
