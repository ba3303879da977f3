------------------------------ MODULE IoStream ------------------------------
(* An IO stream as the program sees it: a file read and written at one        *)
(* logical position, or a stream with separate input and output.  Buffers,   *)
(* their size and the outcomes of single system calls do not appear; only     *)
(* how many bytes the descriptor has taken so far is observed.                *)
(*                                                                            *)
(*   k     "file" family (seekable) or stream family                          *)
(*   c     bytes of the file as the descriptor holds them / the whole input   *)
(*   p     how many bytes of c lie before the place reading goes on at        *)
(*   pb    bytes put back, delivered before c[p+1]                            *)
(*   pend  bytes accepted from the program but not yet taken; for a file they *)
(*         belong right before p                                              *)
(*   out   bytes the other end of a stream has received                       *)
(*   a     number of bytes the descriptor has taken                           *)
(*   loose more bytes were put back than lie before the position of a file,   *)
(*         and then it was moved or written: nothing is promised any more     *)
EXTENDS Naturals, Integers, Sequences

Seekable == {"file", "rfile", "wfile"}
Readable == {"file", "rfile", "rpipe", "sock", "popen", "stdin"}
Writable == {"file", "wfile", "wpipe", "sock", "popen", "stdout", "stderr"}
Synced == {"sock", "popen", "stderr"}
NL == 10
Seps == <<(* "" *) <<>>, <<NL>>, <<97, 98>>, <<97, 97, 98>>>>

Start(k, d) == [k |-> k, c |-> d, p |-> 0, pb |-> <<>>, pend |-> <<>>, out |-> <<>>,
                sync |-> k \in Synced, open |-> TRUE, w |-> k \in Writable, a |-> 0, loose |-> FALSE]

Min(a, b) == IF a < b THEN a ELSE b
Take(s, n) == SubSeq(s, 1, Min(n, Len(s)))
Drop(s, n) == SubSeq(s, n + 1, Len(s))

(* bytes b laid over s from offset o on, zeros filling a gap *)
Overlay(s, o, b) ==
  IF b = <<>> THEN s
  ELSE [i \in 1..(IF Len(s) > o + Len(b) THEN Len(s) ELSE o + Len(b)) |->
          IF i > o /\ i <= o + Len(b) THEN b[i - o] ELSE IF i <= Len(s) THEN s[i] ELSE 0]

(* the descriptor takes the first j pending bytes *)
Land(st, j) ==
  LET b == Take(st.pend, j)
      s == [st EXCEPT !.pend = Drop(@, j), !.a = @ + j]
  IN IF st.k \in Seekable THEN [s EXCEPT !.c = Overlay(@, st.p - Len(st.pend), b)]
     ELSE [s EXCEPT !.out = @ \o b]

(* everything pending goes out before the operation itself *)
Landed(st) == Land(st, Len(st.pend))

-----------------------------------------------------------------------------
(* Reading *)
Avail(st) == st.pb \o Drop(st.c, st.p)
(* n bytes of what is available have been delivered *)
Used(st, n) ==
  LET k == Min(n, Len(st.pb)) IN [st EXCEPT !.pb = Drop(@, k), !.p = @ + (n - k)]

RECURSIVE Newlines(_)
Newlines(s) == IF s # <<>> /\ s[1] = NL THEN 1 + Newlines(Tail(s)) ELSE 0

EndsWith(s, n, t) == n >= Len(t) /\ SubSeq(s, n - Len(t) + 1, n) = t
(* smallest length of a prefix of s ending in t, 0 if there is none *)
RECURSIVE FirstEnd(_, _, _)
FirstEnd(s, t, n) == IF n > Len(s) THEN 0 ELSE IF EndsWith(s, n, t) THEN n ELSE FirstEnd(s, t, n + 1)

(* bytes missing from the UTF-8 character the prefix of length n ends in *)
CharLen(b) == IF b >= 240 /\ b <= 247 THEN 4 ELSE IF b >= 224 /\ b <= 239 THEN 3
              ELSE IF b >= 192 /\ b <= 223 THEN 2 ELSE 1
Cont(b) == b >= 128 /\ b <= 191
Missing(s, n) ==
  LET heads == {i \in 1..n : i > n - 3 /\ ~Cont(s[i]) /\ \A j \in (i + 1)..n : Cont(s[j])}
  IN IF heads = {} THEN 0
     ELSE LET h == CHOOSE i \in heads : TRUE
          IN IF CharLen(s[h]) > n - h + 1 THEN CharLen(s[h]) - (n - h + 1) ELSE 0
RECURSIVE Complete(_, _, _)
Complete(s, n, room) ==
  IF room = 0 \/ n >= Len(s) \/ Missing(s, n) = 0 THEN n ELSE Complete(s, n + 1, room - 1)
Cut(s, n, u) == IF u = 1 THEN Complete(s, n, 16) ELSE n

(* One line from s: how many leading bytes are skipped, how many make the     *)
(* line, how many after it are swallowed, and whether there is a line.        *)
Line(s, sep, lim, u) ==
  IF lim = 0 THEN [skip |-> 0, len |-> 0, eat |-> 0, nil |-> FALSE]
  ELSE IF sep < 0 THEN
    LET n == IF lim < 0 \/ lim > Len(s) THEN Len(s) ELSE Cut(s, lim, u)
    IN [skip |-> 0, len |-> n, eat |-> 0, nil |-> s = <<>>]
  ELSE IF sep = 0 THEN
    LET k == Newlines(s)
        t == Drop(s, k)
        e == FirstEnd(t, <<NL, NL>>, 2)
        limited == lim >= 0 /\ lim < (IF e = 0 THEN Len(t) ELSE e)
        n == IF limited THEN Cut(t, lim, u) ELSE IF e = 0 THEN Len(t) ELSE e
    IN [skip |-> k, len |-> n,
        eat |-> IF ~limited /\ e > 0 THEN Newlines(Drop(t, e)) ELSE 0,
        nil |-> t = <<>>]
  ELSE
    LET e == FirstEnd(s, Seps[sep + 1], 1)
        limited == lim >= 0 /\ lim < (IF e = 0 THEN Len(s) ELSE e)
        n == IF limited THEN Cut(s, lim, u) ELSE IF e = 0 THEN Len(s) ELSE e
    IN [skip |-> 0, len |-> n, eat |-> 0, nil |-> s = <<>>]

-----------------------------------------------------------------------------
(* Step(st, o, r, a): the states the stream may be in after operation o       *)
(* answered r, the descriptor having taken a bytes in all by then.  Empty if  *)
(* no such answer is allowed.                                                 *)
Same(st, a) == IF a >= st.a /\ a - st.a <= Len(st.pend) THEN {Land(st, a - st.a)} ELSE {}
(* the operation has sent out everything first *)
Out(st, a) == IF a = st.a + Len(st.pend) THEN {Landed(st)} ELSE {}
(* a read answered from bytes put back need not touch the descriptor *)
MaybeOut(st, a) == IF st.pb # <<>> THEN Same(st, a) ELSE Out(st, a)

Where(st) == st.p - Len(st.pb)

Reads(st, o, r, a) ==
  LET n == o[2][1]
      full == Take(Avail(st), n)
  IN IF st.k \notin Readable THEN IF r[1] = "err" THEN Same(st, a) ELSE {}
     ELSE IF r[1] = "intr" THEN Same(st, a)
     ELSE LET S == IF st.k \in Seekable THEN MaybeOut(st, a) ELSE Same(st, a)
          IN CASE o[1] \in {"read", "readb"} ->
                    IF r[1] = "ok" THEN {Used(s, Len(r[2])) : s \in {x \in S : r[2] = Take(Avail(x), n)}} ELSE {}
               [] o[1] = "readall" ->
                    IF r[1] = "ok" THEN {Used(s, Len(r[2])) : s \in {x \in S : r[2] = Avail(x)}} ELSE {}
               [] o[1] \in {"sysread", "partial"} ->
                    IF r[1] = "ok"
                    THEN {Used(s, Len(r[2])) : s \in {x \in S :
                            /\ Len(r[2]) <= n /\ r[2] = Take(Avail(x), Len(r[2]))
                            /\ (r[2] = <<>> => Avail(x) = <<>>)}}
                    ELSE {}
               [] o[1] = "readnb" ->
                    CASE r[1] = "ok" -> {Used(s, Len(r[2])) : s \in {x \in S :
                            Len(r[2]) \in 1..n /\ r[2] = Take(Avail(x), Len(r[2]))}}
                      [] r[1] = "eof" -> {x \in S : Avail(x) = <<>>}
                      [] r[1] = "block" -> {x \in Same(st, a) : st.pb = <<>>}
                      [] r[1] = "err" -> Same(st, a)
                      [] OTHER -> {}
               [] o[1] = "line" ->
                    UNION {LET s == Avail(x)
                               l == Line(s, o[2][1], o[2][2], o[2][3])
                           IN IF l.nil THEN IF r[1] = "nil" THEN {Used(x, l.skip)} ELSE {}
                              ELSE IF r[1] = "ok" /\ r[2] = SubSeq(s, l.skip + 1, l.skip + l.len)
                                   THEN {Used(x, l.skip + l.len + l.eat)} ELSE {}
                           : x \in IF o[2][2] = 0 THEN Same(st, a) ELSE S}
               [] OTHER -> {}

(* A write starts where the program has read up to: bytes put back are given  *)
(* up, and what was read ahead does not count.                                *)
Unread(st) == IF st.k \in Seekable THEN [st EXCEPT !.p = Where(st), !.pb = <<>>] ELSE st
(* n more bytes of b accepted, then a taken in all *)
Accept(st, b, n, a) ==
  LET s == [st EXCEPT !.pend = @ \o Take(b, n), !.p = IF st.k \in Seekable THEN @ + n ELSE @]
  IN Same(s, a)
Writes(st, o, r, a) ==
  IF ~st.w THEN IF r[1] = "err" THEN Same(st, a) ELSE {}
  ELSE IF st.k \in Seekable /\ Where(st) < 0 THEN {[st EXCEPT !.loose = TRUE]}
  ELSE LET n == IF r[1] = "block" \/ r[2] = <<>> THEN 0 ELSE r[2][1]
           b == o[2]
           (* with bytes put back, what is pending goes out before the position moves *)
           From == IF st.k \in Seekable /\ st.pb # <<>>
                   THEN IF a >= st.a + Len(st.pend) THEN {Unread(Landed(st))} ELSE {}
                   ELSE {st}
       IN CASE r[1] = "ok" ->
                 IF n \notin 0..Len(b) THEN {}
                 ELSE LET S == UNION {Accept(s, b, n, a) : s \in From}
                      IN IF o[1] = "write"
                         THEN {s \in S : n = Len(b) /\ (st.sync => s.pend = <<>>)}
                         ELSE {s \in S : s.pend = <<>>}
            [] r[1] \in {"intr", "err"} ->
                 (IF n = 0 THEN Same(st, a) ELSE {})
                 \cup (IF n \in 0..Len(b)
                       THEN UNION {Accept(s, b, n, a) : s \in From} ELSE {})
            [] r[1] = "block" -> IF o[1] # "writenb" THEN {}
                                 ELSE Same(st, a) \cup UNION {Same(s, a) : s \in From}
            [] OTHER -> {}

Seeks(st, o, r, a) ==
  IF r[1] = "intr" THEN Same(st, a)
  ELSE IF st.k \notin Seekable THEN IF r[1] = "err" THEN Same(st, a) ELSE {}
  ELSE LET S == Out(st, a)
       IN UNION {
            LET base == CASE o[2][2] = 0 -> 0 [] o[2][2] = 1 -> Where(x) [] OTHER -> Len(x.c)
                t == base + o[2][1]
            IN IF o[2][2] = 1 /\ Where(x) < 0 THEN {[st EXCEPT !.loose = TRUE]}
               ELSE IF t < 0 THEN IF r[1] = "err" THEN {x} ELSE {}
               ELSE IF r[1] = "ok" /\ r[2] = <<t>> THEN {[x EXCEPT !.p = t, !.pb = <<>>]} ELSE {}
            : x \in S}
          (* a failing write of pending bytes is reported instead *)
          \cup IF r[1] = "err" /\ st.pend # <<>> THEN Same(st, a) ELSE {}

Position(st, r, a) ==
  IF r[1] = "intr" THEN Same(st, a)
  ELSE IF st.k \notin Seekable THEN IF r[1] = "err" THEN Same(st, a) ELSE {}
  ELSE IF r[1] = "err" /\ st.pend # <<>> THEN Same(st, a)
  ELSE IF Where(st) < 0 THEN Out(st, a)
  ELSE IF r = <<"ok", <<Where(st)>>>> THEN Out(st, a) ELSE {}

Step(st, o, r, a) ==
  IF st.loose THEN {st}
  ELSE IF ~st.open THEN IF r[1] = "err" /\ a = st.a THEN {st} ELSE {}
  ELSE CASE o[1] \in {"read", "readb", "readall", "sysread", "partial", "readnb", "line"} ->
              (* a read first sends out what is pending; if that fails for good, *)
              (* bytes put back may have been given up already                   *)
              Reads(st, o, r, a)
              \cup (IF r[1] = "err" /\ st.pend # <<>>
                    THEN Same(st, a) \cup {[s EXCEPT !.pb = <<>>] : s \in Same(st, a)} ELSE {})
         [] o[1] = "unget" ->
              IF st.k \in Readable /\ st.k # "stdin"
              THEN IF r[1] = "ok" THEN {[s EXCEPT !.pb = o[2] \o @] : s \in Same(st, a)} ELSE {}
              ELSE IF r[1] = "err" THEN Same(st, a) ELSE {}
         (* whether a byte is at hand: never claimed at the end, always when bytes were put back *)
         [] o[1] = "buffered" ->
              IF r[1] = "ok" /\ (st.pb # <<>> => r[2] = <<1>>) /\ (r[2] = <<1>> => Avail(st) # <<>>)
              THEN Same(st, a) ELSE {}
         [] o[1] = "seek" -> Seeks(st, o, r, a)
         [] o[1] = "pos" -> Position(st, r, a)
         [] o[1] \in {"write", "writenb"} -> Writes(st, o, r, a)
         [] o[1] = "flush" ->
              IF r[1] = "ok" THEN Out(st, a) ELSE IF r[1] \in {"intr", "err"} THEN Same(st, a) ELSE {}
         [] o[1] = "sync" ->
              IF r = <<"ok", <<IF st.w THEN o[2][1] ELSE 0>>>>
              THEN {[s EXCEPT !.sync = o[2][1] = 1] : s \in Same(st, a)} ELSE {}
         [] o[1] = "close" ->
              IF r[1] = "ok" THEN {[s EXCEPT !.open = FALSE] : s \in Out(st, a)}
              ELSE IF r[1] \in {"intr", "err"} THEN Same(st, a) ELSE {}
         (* the stream is given up, or its writing half: what is pending still goes out *)
         [] o[1] = "drop" -> {[s EXCEPT !.open = FALSE] : s \in Out(st, a)}
         [] o[1] = "closew" -> {[s EXCEPT !.w = FALSE] : s \in Out(st, a)}
         [] OTHER -> {}

(* An operation is cut short, or fails, only because a system call was: x is   *)
(* how many calls were refused for the moment (or a signal was waiting) and   *)
(* how many failed for good.  Other failures are the ones spelled out above.  *)
Excused(st, o, r, x) ==
  CASE r[1] \in {"intr", "block"} -> x[1] > 0
    [] r[1] = "err" ->
         \/ x[2] > 0 \/ ~st.open
         \/ o[1] = "readnb" /\ x[1] > 0
         \/ o[1] \in {"seek", "pos"}
         \/ o[1] \in {"write", "writenb"} /\ ~st.w
         \/ o[1] \in {"read", "readb", "readall", "sysread", "partial", "readnb", "line", "unget"} /\ st.k \notin Readable
         \/ o[1] = "unget" /\ st.k = "stdin"
         \/ o[1] = "writenb" /\ x[1] > 0
    [] OTHER -> TRUE

(* what the descriptor shows: file contents, or the bytes received *)
Shows(st, c) == st.loose \/ c = IF st.k \in Seekable THEN st.c ELSE st.out
=============================================================================
