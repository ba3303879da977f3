------------------------------ MODULE IoBuffers ------------------------------
(* How a stream over one seekable descriptor keeps its place: a read-ahead    *)
(* buffer, bytes put back, a write buffer and the descriptor's own offset,    *)
(* moved one system call at a time.  Calls may be short or refused; a refused *)
(* operation gives back what it has taken so that it can be asked for again.  *)
(* g follows along as the stream of IoStream; Corresponds says that both      *)
(* agree whenever no operation is under way.                                  *)
EXTENDS IoStream, FiniteSets
CONSTANTS Size, RCap, WCap, MaxOps,
          FoldPushback,     \* seeks count bytes put back, and drop them
          UnreadOnWrite,    \* writes first move back over what was read ahead
          DrainOnRead,      \* reads first send out what was written
          GiveBack          \* a refused read gives back what it had taken
File0 == [i \in 1..Size |-> i]
VARIABLES file, off, rb, pb, wb, op, g, n, ok
vars == <<file, off, rb, pb, wb, op, g, n, ok>>
Idle == [name |-> "idle", want |-> 0, acc |-> <<>>]

Init == /\ file = File0 /\ off = 0 /\ rb = <<>> /\ pb = <<>> /\ wb = <<>>
        /\ op = Idle /\ g = Start("file", File0) /\ n = 0 /\ ok = TRUE

(* one write(2) of k bytes of the write buffer *)
Sends(k) == /\ file' = Overlay(file, off, Take(wb, k))
            /\ off' = off + k
            /\ wb' = Drop(wb, k)
            /\ g' = Land(g, k)

Begin == op = Idle /\ n < MaxOps /\ n' = n + 1

StartRead == /\ Begin
             /\ \E k \in 1..3, x \in {"exact", "ahead"} : op' = [name |-> x, want |-> k, acc |-> <<>>]
             /\ UNCHANGED <<file, off, rb, pb, wb, g, ok>>
Reading == op.name \in {"exact", "ahead"}
More == Len(op.acc) < op.want
FromBack == /\ Reading /\ More /\ pb # <<>>
            /\ LET k == Min(Len(pb), op.want - Len(op.acc))
               IN op' = [op EXCEPT !.acc = @ \o Take(pb, k)] /\ pb' = Drop(pb, k)
            /\ UNCHANGED <<file, off, rb, wb, g, n, ok>>
ReadDrain == /\ Reading /\ More /\ pb = <<>> /\ wb # <<>> /\ DrainOnRead
             /\ \E k \in 1..Len(wb) : Sends(k)
             /\ UNCHANGED <<rb, pb, op, n, ok>>
FromAhead == /\ Reading /\ More /\ pb = <<>> /\ (wb = <<>> \/ ~DrainOnRead) /\ rb # <<>>
             /\ LET k == Min(Len(rb), op.want - Len(op.acc))
                IN op' = [op EXCEPT !.acc = @ \o Take(rb, k)] /\ rb' = Drop(rb, k)
             /\ UNCHANGED <<file, off, pb, wb, g, n, ok>>
(* one read(2): into the buffer, or exactly what is missing *)
Fill == /\ Reading /\ More /\ pb = <<>> /\ (wb = <<>> \/ ~DrainOnRead) /\ rb = <<>> /\ off < Len(file)
        /\ LET most == Min(IF op.name = "exact" THEN op.want - Len(op.acc) ELSE RCap, Len(file) - off)
           IN \E k \in 1..most :
                /\ off' = off + k
                /\ IF op.name = "exact"
                   THEN op' = [op EXCEPT !.acc = @ \o SubSeq(file, off + 1, off + k)] /\ rb' = rb
                   ELSE rb' = SubSeq(file, off + 1, off + k) /\ op' = op
        /\ UNCHANGED <<file, pb, wb, g, n, ok>>
EndRead ==
  /\ Reading
  /\ ~More \/ (pb = <<>> /\ (wb = <<>> \/ ~DrainOnRead) /\ rb = <<>> /\ off >= Len(file))
  /\ ok' = (op.acc = Take(Avail(g), op.want))
  /\ g' = Used(g, Len(op.acc))
  /\ op' = Idle
  /\ UNCHANGED <<file, off, rb, pb, wb, n>>
(* refused at a system call *)
Refused == /\ Reading /\ More /\ pb = <<>> /\ (wb # <<>> \/ rb = <<>>)
           /\ pb' = IF GiveBack THEN op.acc ELSE <<>>
           /\ op' = Idle
           /\ UNCHANGED <<file, off, rb, wb, g, n, ok>>

StartWrite ==
  /\ Begin
  /\ Where(g) >= 0
  /\ \E b \in {<<8>>, <<8, 9>>} : op' = [name |-> "write", want |-> 0, acc |-> b]
  /\ UNCHANGED <<file, off, rb, pb, wb, g, ok>>
Writing == op.name = "write"
Behind == UnreadOnWrite /\ (pb # <<>> \/ rb # <<>>)
WriteDrain == /\ Writing /\ wb # <<>> /\ (Behind \/ Len(wb) + Len(op.acc) >= WCap)
              /\ \E k \in 1..Len(wb) : Sends(k)
              /\ UNCHANGED <<rb, pb, op, n, ok>>
WriteUnread == /\ Writing /\ wb = <<>> /\ Behind
               /\ off' = off - Len(rb) - Len(pb)
               /\ rb' = <<>> /\ pb' = <<>>
               /\ g' = Unread(g)
               /\ UNCHANGED <<file, wb, op, n, ok>>
Buffer == /\ Writing /\ ~Behind /\ Len(wb) + Len(op.acc) < WCap
          /\ wb' = wb \o op.acc
          /\ g' = [Unread(g) EXCEPT !.pend = @ \o op.acc, !.p = @ + Len(op.acc)]
          /\ op' = Idle
          /\ UNCHANGED <<file, off, rb, pb, n, ok>>
Direct == /\ Writing /\ ~Behind /\ wb = <<>> /\ Len(op.acc) >= WCap
          /\ \E k \in 1..Len(op.acc) :
               /\ file' = Overlay(file, off, Take(op.acc, k)) /\ off' = off + k
               /\ g' = Land([Unread(g) EXCEPT !.pend = Take(op.acc, k), !.p = @ + k], k)
               /\ op' = IF k = Len(op.acc) THEN Idle ELSE [op EXCEPT !.acc = Drop(@, k)]
          /\ UNCHANGED <<rb, pb, wb, n, ok>>

Seek == /\ Begin /\ wb = <<>>
        /\ \E t \in 0..(Len(File0) + 1) :
             \/ /\ off' = t
                /\ g' = [g EXCEPT !.p = t, !.pb = <<>>]
             \/ /\ Where(g) >= 0
                (* by t - 2 from where the program is *)
                /\ LET d == t - 2
                       to == off - Len(rb) - (IF FoldPushback THEN Len(pb) ELSE 0) + d
                   IN /\ Where(g) + d >= 0 /\ to >= 0 /\ d # 0
                      /\ off' = to
                      /\ g' = [g EXCEPT !.p = Where(g) + d, !.pb = <<>>]
        /\ rb' = <<>>
        /\ pb' = IF FoldPushback THEN <<>> ELSE pb
        /\ UNCHANGED <<file, wb, op, ok>>
Put == /\ Begin /\ Len(pb) < 2
       /\ pb' = <<7>> \o pb
       /\ g' = [g EXCEPT !.pb = <<7>> \o @]
       /\ UNCHANGED <<file, off, rb, wb, op, ok>>
Flush == /\ Begin /\ wb # <<>>
         /\ \E k \in 1..Len(wb) : Sends(k)
         /\ UNCHANGED <<rb, pb, op, ok>>

Next == \/ StartRead \/ FromBack \/ ReadDrain \/ FromAhead \/ Fill \/ EndRead \/ Refused
        \/ StartWrite \/ WriteDrain \/ WriteUnread \/ Buffer \/ Direct
        \/ Seek \/ Put \/ Flush
Spec == Init /\ [][Next]_vars

Delivered == ok
(* what would be read next, the place, the file and what is still to go out *)
Corresponds ==
  op = Idle =>
    /\ file = g.c /\ wb = g.pend
    /\ Where(g) = off + Len(wb) - Len(rb) - Len(pb)
    /\ wb = <<>> => pb \o rb \o Drop(file, off) = Avail(g)
=============================================================================
