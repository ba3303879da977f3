-------------------------------- MODULE Sched --------------------------------
(***************************************************************************)
(* The interpreter's thread scheduler: green threads that run one at a     *)
(* time, park (sleep, join, wait for descriptors), wake each other, and    *)
(* receive asynchronous interrupts under masks.                            *)
(*                                                                          *)
(* A state says who runs, who is queued, when the parked ones are due, and *)
(* what must be seen next (exp): the running thread is free to call        *)
(* something (<<"go", t>>), a call returns (<<"ret", t, result>>), a       *)
(* thread's body begins (<<"start", t>>), or nothing ever again            *)
(* (<<"stuck">>: waiting for a descriptor nobody will make ready).         *)
(* The main thread is 1.  Where the order of simultaneous wakeups is not   *)
(* determined, there are several successors.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, F
Thr == 1..N
Fds == 1..F
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Rng(q) == {q[k] : k \in 1..Len(q)}
(* all orders of a set *)
Orders(S) == {q \in [1..Cardinality(S) -> S] : \A a, b \in 1..Cardinality(S) : a # b => q[a] # q[b]}
Drop(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))

NoThread == [st |-> "none", dl |-> -1, on |-> 0, fds |-> {}, was |-> {}, pend |-> <<>>, masks |-> <<>>, unint |-> 0,
             permit |-> FALSE, blk |-> FALSE, killed |-> FALSE, out |-> <<>>, abort |-> FALSE, op |-> <<"", <<>>>>,
             from |-> 0, until |-> -1, status |-> <<>>]
Fresh == [now |-> 0, cur |-> 1, ready |-> <<>>, left |-> -1, th |-> [t \in Thr |-> IF t = 1 THEN [NoThread EXCEPT !.st = "run"] ELSE NoThread],
          order |-> <<1>>, fd |-> [f \in Fds |-> 0], plan |-> <<>>, exp |-> <<"go", 1>>, reports |-> 0, live |-> 0, tgt |-> {}]
Parked(x) == x.st \in {"sleep", "join", "io"}
Alive(s) == {t \in Thr : s.th[t].st \notin {"none", "dead"}}

(****************************** interrupts *********************************)
(* exception classes: 1 above 2 and 4, 2 above 3 *)
Super(c) == CASE c = 3 -> {3, 2, 1} [] c \in {2, 4} -> {c, 1} [] OTHER -> {c}
(* 0 immediately, 1 when blocking, 2 never: the innermost section naming the class or one above it decides *)
Timing(x, p) ==
  IF x.unint > 0 THEN 2
  ELSE IF p[1] = "kill" THEN 0
  ELSE LET Hits == {<<a, b>> \in (1..Len(x.masks)) \X (1..2) : b <= Len(x.masks[a]) /\ x.masks[a][b][1] \in Super(p[2])}
       IN IF Hits = {} THEN 0
          ELSE LET h == CHOOSE u \in Hits : \A v \in Hits : u[1] > v[1] \/ (u[1] = v[1] /\ u[2] <= v[2])
               IN x.masks[h[1]][h[2]][2]
May(x, blk) == {k \in 1..Len(x.pend) : LET y == Timing(x, x.pend[k]) IN y = 0 \/ (y = 1 /\ blk)}
Worthy(x) == \E k \in 1..Len(x.pend) : Timing(x, x.pend[k]) # 2
(* the first interrupt that may be delivered now, if any, and the state without it *)
Deliver(s, t, blk) ==
  LET x == s.th[t]
      M == May(x, blk)
  IN IF M = {} THEN [s |-> s, r |-> <<>>]
     ELSE LET k == Min(M)
              p == x.pend[k]
              y == [x EXCEPT !.pend = Drop(x.pend, k)]
          IN IF p[1] = "kill"
             THEN IF t = 1 THEN [s |-> [s EXCEPT !.th[t] = y], r |-> <<"exit", <<>>>>]
                  ELSE [s |-> [s EXCEPT !.th[t] = [y EXCEPT !.killed = TRUE]], r |-> <<"kill", <<>>>>]
             ELSE [s |-> [s EXCEPT !.th[t] = y], r |-> <<"err", <<p[2], p[3]>>>>]

(******************************* waking up *********************************)
Awake(x) == [x EXCEPT !.st = "run", !.dl = -1, !.on = 0, !.fds = {}]
(* all of W become runnable at the same moment *)
Wake(s, W) == {[s EXCEPT !.th = [t \in Thr |-> IF t \in W THEN Awake(s.th[t]) ELSE s.th[t]], !.ready = s.ready \o q] : q \in Orders(W \ {1})}
Due(s) == {t \in Thr : \/ Parked(s.th[t]) /\ s.th[t].dl >= 0 /\ s.th[t].dl <= s.now
                       \/ s.th[t].st = "io" /\ \E f \in s.th[t].fds : s.fd[f] > 0}
Advance(s, T) ==
  LET D == {k \in 1..Len(s.plan) : s.plan[k][1] <= T}
  IN [s EXCEPT !.now = T, !.fd = [f \in Fds |-> s.fd[f] + Cardinality({k \in D : s.plan[k][2] = f})],
               !.plan = SelectSeq(s.plan, LAMBDA p : p[1] > T)]
Ret(s, t, r) == {[s EXCEPT !.exp = <<"ret", t, r>>]}
Ok(s, t, v) == Ret(s, t, <<"ok", v>>)

RECURSIVE Loop(_), PassOn(_), JoinStep(_, _), Dispatch(_, _), TermStep(_)
StartPass(s) == UNION {PassOn([x EXCEPT !.left = Len(x.ready)]) : x \in Wake(s, Due(s))}
(* the scheduler gets control back from a green thread *)
Cont(s) == IF s.left >= 0 THEN PassOn(s) ELSE Loop(s)
(* main dispatches what was queued when it passed, then goes on *)
PassOn(s) ==
  IF s.left = 0 \/ s.ready = <<>>
  THEN LET b == [s EXCEPT !.left = -1, !.cur = 1]
           d == Deliver(b, 1, FALSE)
       IN IF b.th[1].op[1] = "terminate" THEN TermStep(d.s)
          ELSE IF d.r # <<>> THEN Ret(d.s, 1, d.r) ELSE Ok(d.s, 1, <<>>)
  ELSE Dispatch([s EXCEPT !.left = @ - 1, !.ready = Tail(@)], Head(s.ready))
(* exit: pass until the others are dead or nothing moves any more *)
TermStep(s) ==
  IF Alive(s) \cap s.tgt = {} THEN Ok(s, 1, <<>>)
  ELSE IF s.ready # <<>> \/ Due(s) # {} \/ May(s.th[1], FALSE) # {} THEN
         LET d == Deliver(s, 1, FALSE) IN IF d.r # <<>> THEN TermStep(d.s) ELSE StartPass(s)
  ELSE Ok(s, 1, <<>>)
(* main is parked: run the others until it is woken *)
Loop(s) ==
  UNION { IF x.th[1].st = "run"
          THEN LET y == [x EXCEPT !.cur = 1]
               IN IF y.th[1].op[1] = "join" THEN JoinStep(y, 1)
                  ELSE LET d == Deliver(y, 1, TRUE)
                       IN IF d.r # <<>> THEN Ret(d.s, 1, d.r)
                          ELSE Ok(d.s, 1, IF y.th[1].op[1] = "sleep" THEN <<y.now - y.th[1].from>> ELSE <<>>)
          ELSE IF x.ready # <<>> THEN Dispatch([x EXCEPT !.ready = Tail(@)], Head(x.ready))
          ELSE LET D == {x.th[t].dl : t \in {u \in Thr : Parked(x.th[u]) /\ x.th[u].dl >= 0}}
                   P == IF \E t \in Thr : x.th[t].st = "io" THEN {p[1] : p \in Rng(x.plan)} ELSE {}
               IN IF D \cup P # {} THEN Loop(Advance(x, Min(D \cup P)))
                  ELSE IF \E t \in Thr : x.th[t].st = "io" THEN {[x EXCEPT !.exp = <<"stuck">>]}
                  ELSE Ret([x EXCEPT !.cur = 1], 1, <<"fatal", <<>>>>)
          : x \in Wake(s, Due(s)) }
Park(s, t) == IF t = 1 THEN Loop(s) ELSE Cont(s)
JoinStep(s, t) ==
  LET d == Deliver(s, t, TRUE)
      x == s.th[t]
      u == x.op[2][1]
  IN IF d.r # <<>> THEN Ret(d.s, t, d.r)
     ELSE IF s.th[u].st = "dead" THEN Ok([s EXCEPT !.th[t].blk = TRUE], t, <<1>>)
     ELSE IF x.until >= 0 /\ s.now >= x.until THEN Ok([s EXCEPT !.th[t].blk = TRUE], t, <<0>>)
     ELSE Park([s EXCEPT !.th[t].blk = TRUE, !.th[t].st = "join", !.th[t].on = u, !.th[t].dl = x.until, !.th[u].was = @ \cup {t}], t)

(***************************** ends of threads *****************************)
(* Everyone joining t wakes; one that joined t before and now joins another *)
(* may look again.                                                          *)
Finish(s, t, out) ==
  LET a == [s EXCEPT !.th[t].pend = <<>>, !.th[t].st = "dead", !.th[t].out = out, !.order = SelectSeq(@, LAMBDA u : u # t),
                     !.reports = IF out[1] = 2 THEN @ + 1 ELSE @, !.live = Cardinality(Alive(s)) - 1]
      J == {j \in Thr : a.th[j].st = "join" /\ a.th[j].on = t}
      K == {j \in s.th[t].was : a.th[j].st = "join" /\ a.th[j].on # t}
      Told(b) == IF out[1] = 2 /\ b.th[t].abort
                 THEN LET c == [b EXCEPT !.th[1].pend = Append(@, <<"raise", out[2], out[3]>>)]
                      IN IF Parked(c.th[1]) /\ Worthy(c.th[1]) THEN [c EXCEPT !.th[1] = Awake(@)] ELSE c
                 ELSE b
  IN {Told(b) : b \in UNION {Wake(a, J \cup X) : X \in SUBSET K}}
Dispatch(s, t) ==
  LET x == s.th[t]
      a == [s EXCEPT !.cur = t, !.th[t].st = "run"]
  IN IF x.st = "new"
     THEN IF x.pend = <<>> THEN {[a EXCEPT !.exp = <<"start", t>>]}
          ELSE LET p == Head(x.pend)
               IN UNION {Cont(b) : b \in Finish(s, t, IF p[1] = "kill" THEN <<3>> ELSE <<2, p[2], p[3]>>)}
     ELSE LET d == Deliver(a, t, x.blk)
          IN IF d.r # <<>> THEN Ret(d.s, t, d.r)
             ELSE CASE x.op[1] = "join" -> JoinStep(a, t)
                    [] x.op[1] = "sleep" -> Ok(a, t, <<a.now - x.from>>)
                    [] OTHER -> Ok(a, t, <<>>)

(********************************* calls ***********************************)
Code(st) == CASE st = "new" -> 0 [] st = "run" -> 1 [] st = "sleep" -> 2 [] st = "join" -> 3 [] st = "io" -> 4 [] st = "dead" -> 5
B(x) == IF x THEN <<1>> ELSE <<0>>
Interrupt(s, t, u, p) ==
  IF u = t THEN LET d == Deliver([s EXCEPT !.th[t].pend = Append(@, p)], t, FALSE)
                IN IF d.r # <<>> THEN Ret(d.s, t, d.r) ELSE Ok(d.s, t, <<>>)
  ELSE IF s.th[u].st = "dead" THEN Ok(s, t, <<>>)
  ELSE LET a == [s EXCEPT !.th[u].pend = Append(@, p)]
       IN IF Parked(a.th[u]) /\ Worthy(a.th[u]) THEN UNION {Ok(b, t, <<>>) : b \in Wake(a, {u})} ELSE Ok(a, t, <<>>)
(* deliver first; if nothing is due, go on as G *)
After(s, t, r, G) == IF r # <<>> THEN Ret(s, t, r) ELSE G
Pairs(x) == [k \in 1..(Len(x) \div 2) |-> <<x[2 * k - 1], x[2 * k]>>]
Do(s0, t, op) ==
  LET n == op[1]
      x == op[2]
      s == [s0 EXCEPT !.th[t].op = op, !.th[t].from = s0.now]
      Due0(blk) == Deliver(s, t, blk)
  IN
  CASE n = "pass" ->
         LET d == Due0(FALSE)
             a == [d.s EXCEPT !.th[t].blk = FALSE]
         IN After(d.s, t, d.r, IF t = 1 THEN StartPass(a) ELSE Cont([a EXCEPT !.ready = Append(@, t)]))
    [] n = "sleep" ->
         LET d == Due0(TRUE)
             a == [d.s EXCEPT !.th[t].blk = TRUE]
         IN After(d.s, t, d.r,
              IF a.th[t].permit THEN Ok([a EXCEPT !.th[t].permit = FALSE], t, <<0>>)
              ELSE Park([a EXCEPT !.th[t].st = "sleep", !.th[t].dl = IF x[1] < 0 THEN -1 ELSE s.now + x[1]], t))
    [] n = "wait" ->
         LET d == Due0(TRUE)
             a == [d.s EXCEPT !.th[t].blk = TRUE]
         IN After(d.s, t, d.r,
              Park([a EXCEPT !.th[t].st = "io", !.th[t].dl = IF x[1] < 0 THEN -1 ELSE s.now + x[1], !.th[t].fds = Rng(Tail(x))], t))
    [] n = "join" ->
         IF x[1] = t THEN Ret(s, t, <<"err", <<903, 0>>>>)
         ELSE JoinStep([s EXCEPT !.th[t].until = IF x[2] < 0 THEN -1 ELSE s.now + x[2]], t)
    [] n \in {"wakeup", "wakep"} ->
         LET u == x[1]
         IN CASE s.th[u].st = "dead" -> Ok(s, t, <<0>>)
              [] s.th[u].st = "sleep" -> UNION {Ok(b, t, <<1>>) : b \in Wake(s, {u})}
              [] s.th[u].st = "run" /\ n = "wakep" -> Ok([s EXCEPT !.th[u].permit = TRUE], t, <<1>>)
              [] OTHER -> Ok(s, t, <<1>>)
    [] n = "spawn" ->
         LET a == [s EXCEPT !.th[x[1]].st = "new", !.th[x[1]].abort = (x[2] = 1), !.ready = Append(@, x[1]), !.order = Append(@, x[1])]
         IN Ok([a EXCEPT !.live = Cardinality(Alive(a))], t, <<>>)
    [] n = "raise" -> Interrupt(s, t, x[1], <<"raise", x[2], x[3]>>)
    [] n = "kill" -> Interrupt(s, t, x[1], <<"kill", 0, 0>>)
    [] n = "mask" ->
         LET d == Deliver([s EXCEPT !.th[t].masks = Append(@, Pairs(x))], t, FALSE)
         IN After(d.s, t, d.r, Ok(d.s, t, <<>>))
    [] n = "unmask" ->
         LET d == Deliver([s EXCEPT !.th[t].masks = SubSeq(@, 1, Len(@) - 1)], t, FALSE)
         IN After(d.s, t, d.r, Ok(d.s, t, <<>>))
    [] n = "unint" -> Ok([s EXCEPT !.th[t].unint = @ + 1], t, <<>>)
    [] n = "reint" ->
         LET d == Deliver([s EXCEPT !.th[t].unint = @ - 1], t, TRUE)
         IN After(d.s, t, d.r, Ok(d.s, t, <<>>))
    [] n = "feed" -> Ok([s EXCEPT !.fd[x[1]] = @ + 1], t, <<>>)
    [] n = "eat" -> Ok([s EXCEPT !.fd[x[1]] = 0], t, <<>>)
    [] n = "plan" -> Ok([s EXCEPT !.plan = Append(@, <<s.now + x[2], x[1]>>)], t, <<>>)
    [] n = "work" -> Ok(Advance(s, s.now + x[1]), t, <<>>)
    [] n = "terminate" ->
         LET T == Alive(s) \ {1}
             a == [s EXCEPT !.tgt = T, !.th = [u \in Thr |-> IF u \in T THEN [s.th[u] EXCEPT !.pend = Append(@, <<"kill", 0, 0>>)] ELSE s.th[u]]]
         IN UNION {TermStep(b) : b \in Wake(a, {u \in T : Parked(a.th[u])})}
    (* main continues alone, as in a forked process *)
    [] n = "fork" ->
         Ok([s EXCEPT !.th = [u \in Thr |-> IF u \in Alive(s) \ {1} THEN [s.th[u] EXCEPT !.st = "dead", !.out = <<3>>] ELSE s.th[u]],
                      !.ready = <<>>, !.order = <<1>>], t, <<>>)
    [] n = "list" -> Ok(s, t, s.order)
    [] n = "me" -> Ok(s, t, <<t, 1>>)
    [] n = "alive" -> Ok(s, t, B(x[1] \in Alive(s)))
    [] n = "other" -> Ok(s, t, B(Alive(s) # {t}))
    [] n = "oks" -> Ok(s, t, B(t = 1) \o B(Alive(s) # {t}))
    [] n = "live" -> Ok(s, t, <<s.live>>)
    [] n = "reports" -> Ok(s, t, <<s.reports>>)
    [] n = "setst" -> Ok([s EXCEPT !.th[t].status = x], t, <<>>)
    [] n = "getst" -> Ok(s, t, s.th[t].status)
    [] n = "pend" -> Ok(s, t, B(\E k \in 1..Len(s.th[x[1]].pend) : LET p == s.th[x[1]].pend[k] IN x[2] = 0 \/ p[1] = "kill" \/ x[2] \in Super(p[2])))
    [] n = "state" -> Ok(s, t, <<Code(s.th[x[1]].st)>>)
    [] n = "outcome" -> Ok(s, t, IF s.th[x[1]].st # "dead" THEN <<0>> ELSE s.th[x[1]].out)
Outcome(x, r) == CASE r[1] = "ok" -> <<<<1, r[2][1]>>>>
                   [] r[1] = "err" -> <<<<2, r[2][1], r[2][2]>>>>
                   [] r[1] = "kill" /\ x.killed -> <<<<3>>>>
                   [] OTHER -> <<>>
(* what may follow in s the event of kind k by t *)
Step(s, k, t, now, op, r) ==
  IF now # s.now THEN {}
  ELSE CASE k = "call" /\ s.exp = <<"go", t>> -> Do(s, t, op)
         [] k = "ret" /\ s.exp = <<"ret", t, r>> -> {[s EXCEPT !.exp = <<"go", t>>]}
         [] k = "start" /\ s.exp = <<"start", t>> -> {[s EXCEPT !.exp = <<"go", t>>]}
         [] k = "end" /\ t # 1 /\ s.exp = <<"go", t>> /\ Outcome(s.th[t], r) # <<>> ->
              UNION {Cont(b) : b \in Finish(s, t, Outcome(s.th[t], r)[1])}
         [] OTHER -> {}
==============================================================================
