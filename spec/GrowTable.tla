----------------------------- MODULE GrowTable -----------------------------
(* The growable block behind an instance-variable table.  A cell of fresh       *)
(* memory holds junk; growing moves to a block of the next power of two and     *)
(* keeps the old cells.  abs is what the table should hold.                     *)
EXTENDS IvarTable
CONSTANTS MaxLen, Caps
VARIABLES mem, len, abs
vars == <<mem, len, abs>>
Junk == -9
RECURSIVE Pow(_, _)
Pow(n, p) == IF p >= n THEN p ELSE Pow(n, 2 * p)
Block(n) == [x \in 1..n |-> Junk]
Grown(n) == [x \in 1..Pow(n, 1) |-> IF x <= Len(mem) THEN mem[x] ELSE Junk]
Room(n) == IF n > Len(mem) THEN Grown(n) ELSE mem
Init == \E c \in Caps : mem = (IF c = 0 THEN <<>> ELSE Block(Pow(c, 1))) /\ len = 0 /\ abs = <<>>
Push == len < MaxLen /\ \E v \in {0, 1} :
  mem' = [Room(len + 1) EXCEPT ![len + 1] = v] /\ len' = len + 1 /\ abs' = Append(abs, v)
Resize == \E n \in 0..MaxLen :
  /\ mem' = IF n > len THEN [x \in 1..Len(Room(n)) |-> IF x > len /\ x <= n THEN 0 ELSE Room(n)[x]] ELSE mem
  /\ len' = Max(len, n) /\ abs' = abs \o Zeros(Max(0, n - Len(abs)))
Reserve == \E n \in 0..2 : mem' = Room(len + n) /\ UNCHANGED <<len, abs>>
Write == \E x \in 1..len, v \in {0, 1} : mem' = [mem EXCEPT ![x] = v] /\ abs' = [abs EXCEPT ![x] = v] /\ UNCHANGED len
(* go on with a copy instead: a block of the same size, all cells copied *)
Copy == mem' = [x \in 1..Len(mem) |-> mem[x]] /\ UNCHANGED <<len, abs>>
Next == Push \/ Resize \/ Reserve \/ Write \/ Copy
Spec == Init /\ [][Next]_vars
Holds == len <= Len(mem) /\ SubSeq(mem, 1, len) = abs
Size == Len(mem) = 0 \/ Pow(Len(mem), 1) = Len(mem)
==============================================================================
