------------------------------ MODULE PollFlag ------------------------------
(***************************************************************************)
(* The safepoint poll word, the preemption timer and the pending signals    *)
(* (poll_flag.rs, preempt.rs, codegen/signal_table.rs).                     *)
(*                                                                          *)
(* Every interpreter has a word with three lanes; the timer of an           *)
(* interpreter and the process's signal handlers request polls through it.  *)
(*   w     the lanes set in each word                                       *)
(*   own   the word a thread's interpreter has registered (0: none)         *)
(*   sig   the word signal handlers arm                                     *)
(*   pend  the signals recorded and not yet drained                         *)
(*   flag  the word a thread's timer arms                                   *)
(*   run   whether the timer is to run; late: a tick may be under way       *)
(*         although the timer was stopped                                   *)
(*   env   0, or 1 when every poll is to preempt, 2 when none is            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Words == 1..3
Thr == 1..4
Fresh == [w |-> [x \in Words |-> {}], own |-> [t \in Thr |-> 0], sig |-> 0, pend |-> {},
          flag |-> [t \in Thr |-> 0], run |-> [t \in Thr |-> FALSE], late |-> [t \in Thr |-> FALSE], env |-> 0]
Ret(m, v) == {<<m, "ret", <<"ok", v>>>>}
More(m, op) == {<<m, "more", op>>}
Bit(b) == IF b THEN 1 ELSE 0
Value(l) == (IF "gc" \in l THEN 1 ELSE 0) + (IF "pre" \in l THEN 256 ELSE 0) + (IF "sig" \in l THEN 65536 ELSE 0)
Set(m, w, l) == IF w = 0 THEN m ELSE [m EXCEPT !.w[w] = @ \cup {l}]
Clear(m, w, l) == IF w = 0 THEN m ELSE [m EXCEPT !.w[w] = @ \ {l}]
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o Sorted(S \ {x})

(* signals: numbers as on Linux *)
DefaultSignals == {1, 2, 3, 10, 12, 14, 15}
Trappable == {1, 2, 3, 10, 12, 13, 14, 15, 17, 18, 20, 21, 22, 23, 24, 25, 27, 28, 29, 30, 31}
Uncatchable == {9, 19}
Name == [s \in {1, 3, 10, 12, 13, 14, 15} |->
  CASE s = 1 -> "SIGHUP" [] s = 3 -> "SIGQUIT" [] s = 10 -> "SIGUSR1" [] s = 12 -> "SIGUSR2"
    [] s = 13 -> "SIGPIPE" [] s = 14 -> "SIGALRM" [] s = 15 -> "SIGTERM"]
(* the exception: 1 Interrupt, 2 SignalException; and its message *)
Class(s) == IF s = 2 THEN <<1>> ELSE IF s \in DOMAIN Name THEN <<2>> ELSE <<>>
Message(s) == IF s = 2 THEN "Interrupt" ELSE IF s \in DOMAIN Name THEN Name[s] ELSE ""

Do(m, t, o) ==
  LET a == o[2]
      me == m.own[t]
  IN CASE o[1] = "register" -> More([m EXCEPT !.own[t] = a[1]], <<"register2", a>>)
       [] o[1] = "register2" -> Ret([m EXCEPT !.sig = a[1]], <<>>)
       [] o[1] = "unregister" -> More([m EXCEPT !.own[t] = IF @ = a[1] THEN 0 ELSE @], <<"unregister2", a>>)
       [] o[1] = "unregister2" -> Ret([m EXCEPT !.sig = IF @ = a[1] THEN 0 ELSE @], <<>>)
       [] o[1] = "adopt" -> Ret([m EXCEPT !.sig = IF me = 0 THEN @ ELSE me], <<>>)
       [] o[1] = "setgc" -> Ret(Set(m, me, "gc"), <<>>)
       [] o[1] = "cleargc" -> Ret(Clear(m, me, "gc"), <<>>)
       [] o[1] = "gcreq" -> Ret(m, <<Bit(me = 0 \/ "gc" \in m.w[me])>>)
       [] o[1] = "setpre" -> Ret(Set(m, me, "pre"), <<>>)
       [] o[1] = "consume" -> Ret(Clear(m, me, "pre"), <<Bit(me # 0 /\ "pre" \in m.w[me])>>)
       [] o[1] = "clearsig" -> Ret(Clear(m, me, "sig"), <<>>)
       (* recorded first, armed afterwards, in the word found registered *)
       [] o[1] = "handler" -> More([m EXCEPT !.pend = IF a[1] \in 1..32 THEN @ \cup {a[1]} ELSE @], <<"handler2", <<>>>>)
       [] o[1] = "handler2" -> More(m, <<"handler3", <<m.sig>>>>)
       [] o[1] = "handler3" -> Ret(Set(m, a[1], "sig"), <<>>)
       [] o[1] = "take" -> Ret([m EXCEPT !.pend = {}], Sorted(m.pend))
       [] o[1] = "has" -> Ret(m, <<Bit(m.pend # {})>>)
       [] o[1] = "peek" -> Ret(m, <<Value(m.w[a[1]])>>)
       [] o[1] = "regflag" -> LET n == [m EXCEPT !.flag[t] = a[1]]
                              IN IF m.env = 1 THEN More(n, <<"regflag2", a>>) ELSE Ret(n, <<>>)
       [] o[1] = "regflag2" -> Ret(Set(m, a[1], "pre"), <<>>)
       [] o[1] = "renudge" -> Ret(IF m.env = 1 THEN Set(m, me, "pre") ELSE m, <<>>)
       [] o[1] = "dropped" -> Ret([m EXCEPT !.flag[t] = 0, !.late[t] = @ \/ m.run[t], !.run[t] = FALSE], <<>>)
       [] o[1] = "count" -> Ret(IF m.env # 0 THEN m
                                ELSE IF a[1] >= 2 THEN [m EXCEPT !.run[t] = TRUE]
                                ELSE [m EXCEPT !.late[t] = @ \/ m.run[t], !.run[t] = FALSE], <<>>)
       (* several ticks pass and nobody else has anything left to do: a timer
          that is to run has ticked, a stopped one has come to rest *)
       [] o[1] = "settle" ->
            LET tick == [m EXCEPT !.w = [x \in Words |->
                          m.w[x] \cup (IF \E u \in Thr : m.run[u] /\ m.flag[u] = x THEN {"pre"} ELSE {})]]
            IN Ret([tick EXCEPT !.late = [u \in Thr |-> FALSE]], <<>>)
       [] o[1] = "lowest" -> Ret(m, IF a = <<>> THEN <<>> ELSE <<a[1]>>)
       [] o[1] = "kinds" -> Ret(m, <<Bit(a[1] \in Trappable), Bit(a[1] \in Uncatchable), Bit(a[1] \in DefaultSignals)>>)
       [] o[1] = "toerr" -> Ret(m, Class(a[1]))
       [] OTHER -> {}
Tick(m, u) == [m EXCEPT !.w[m.flag[u]] = @ \cup {"pre"}]
Tau(m) == {Tick(m, u) : u \in {x \in Thr : m.run[x] /\ m.flag[x] # 0}} \cup
          {[Tick(m, u) EXCEPT !.late[u] = FALSE] : u \in {x \in Thr : m.late[x] /\ m.flag[x] # 0}}
Text(o) == IF o[1] = "toerr" THEN Message(o[2][1]) ELSE ""
L == INSTANCE Linear WITH Threads <- Thr
=============================================================================
