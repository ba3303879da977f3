----------------------------- MODULE MergeSort -----------------------------
(* The sorting method: natural runs found from the back, short ones extended by *)
(* insertion, neighbouring runs merged through a scratch area so that run        *)
(* lengths stay balanced.  Every comparison is one step and may fail.  With     *)
(* Wild the comparator answers arbitrarily, otherwise by key.                    *)
EXTENDS Sort, TLC
CONSTANTS N, Keys, MaxIns, MinRun, Wild
VARIABLES pc, k, v, buf, start, end, runs, tmp, hole, i, lo, hi, hs, he, dest, cur, asc
vars == <<pc, k, v, buf, start, end, runs, tmp, hole, i, lo, hi, hs, he, dest, cur, asc>>
Idx == 0..(N - 1)
Short == N <= MaxIns
Init ==
  /\ k \in [1..N -> Keys] /\ v = [x \in Idx |-> x + 1] /\ buf = [x \in 0..(N \div 2 - 1) |-> 0]
  /\ start = (IF N = 0 THEN 0 ELSE N - 1) /\ end = N /\ runs = <<>> /\ tmp = 0 /\ hole = 0 /\ i = 0
  /\ lo = 0 /\ hi = 0 /\ hs = 0 /\ he = 0 /\ dest = 0 /\ cur = 0 /\ asc = FALSE
  /\ pc = IF Short THEN "extend" ELSE "next"
Less(a, b) == IF Wild THEN {TRUE, FALSE} ELSE {k[a] < k[b]}
(* ---------------------------------------------------- what is compared *)
Asks == CASE pc = "probe" -> <<v[start + 1], v[start]>>
          [] pc = "run" -> <<v[start], v[start - 1]>>
          [] pc = "ins0" -> <<v[start + 1], v[start]>>
          [] pc = "ins" -> <<v[i], tmp>>
          [] pc = "mergeL" -> <<v[cur], buf[hs]>>
          [] pc = "mergeR" -> <<buf[he - 1], v[dest - 1]>>
          [] OTHER -> <<>>
Reversed == [x \in Idx |-> IF x >= start /\ x < end THEN v[start + end - 1 - x] ELSE v[x]]
(* put the rest of the scratch run back *)
Refill == [x \in Idx |-> IF x >= dest /\ x < dest + (he - hs) THEN buf[hs + x - dest] ELSE v[x]]
Scan ==
  /\ pc = "next"
  /\ IF end = 0 THEN pc' = "done" /\ UNCHANGED start
     ELSE IF end = 1 THEN start' = 0 /\ pc' = "extend" ELSE start' = end - 2 /\ pc' = "probe"
  /\ UNCHANGED <<k, v, buf, end, runs, tmp, hole, i, lo, hi, hs, he, dest, cur, asc>>
Probe ==
  /\ pc = "probe"
  /\ \E a \in Less(v[start + 1], v[start]) : asc' = ~a /\ pc' = "grow"
  /\ UNCHANGED <<k, v, buf, start, end, runs, tmp, hole, i, lo, hi, hs, he, dest, cur>>
Grow ==
  /\ pc = "grow"
  /\ IF start > 0 THEN pc' = "run" /\ UNCHANGED v ELSE pc' = "extend" /\ v' = IF asc THEN v ELSE Reversed
  /\ UNCHANGED <<k, buf, start, end, runs, tmp, hole, i, lo, hi, hs, he, dest, cur, asc>>
RunOn ==
  /\ pc = "run"
  /\ \E a \in Less(v[start], v[start - 1]) :
       IF a = asc THEN pc' = "extend" /\ (v' = IF asc THEN v ELSE Reversed) /\ UNCHANGED start
       ELSE start' = start - 1 /\ pc' = "grow" /\ UNCHANGED v
  /\ UNCHANGED <<k, buf, end, runs, tmp, hole, i, lo, hi, hs, he, dest, cur, asc>>
Extend ==
  /\ pc = "extend"
  /\ IF start > 0 /\ (Short \/ end - start < MinRun)
     THEN start' = start - 1 /\ pc' = "ins0" /\ UNCHANGED <<runs, end>>
     ELSE IF Short THEN pc' = "done" /\ UNCHANGED <<start, runs, end>>
     ELSE runs' = Append(runs, <<start, end - start>>) /\ end' = start /\ pc' = "coll" /\ UNCHANGED start
  /\ UNCHANGED <<k, v, buf, tmp, hole, i, lo, hi, hs, he, dest, cur, asc>>
Ins0 ==
  /\ pc = "ins0"
  /\ \E a \in Less(v[start + 1], v[start]) :
       IF ~a THEN pc' = "extend" /\ UNCHANGED <<v, tmp, hole, i>>
       ELSE tmp' = v[start] /\ v' = [v EXCEPT ![start] = v[start + 1]] /\ hole' = start + 1 /\ i' = start + 2 /\ pc' = "insn"
  /\ UNCHANGED <<k, buf, start, end, runs, lo, hi, hs, he, dest, cur, asc>>
InsNext ==
  /\ pc = "insn"
  /\ IF i < end THEN pc' = "ins" /\ UNCHANGED <<v, tmp>> ELSE pc' = "extend" /\ v' = [v EXCEPT ![hole] = tmp] /\ tmp' = 0
  /\ UNCHANGED <<k, buf, start, end, runs, hole, i, lo, hi, hs, he, dest, cur, asc>>
Ins ==
  /\ pc = "ins"
  /\ \E a \in Less(v[i], tmp) :
       IF ~a THEN pc' = "extend" /\ v' = [v EXCEPT ![hole] = tmp] /\ tmp' = 0 /\ UNCHANGED <<hole, i>>
       ELSE v' = [v EXCEPT ![i - 1] = v[i]] /\ hole' = i /\ i' = i + 1 /\ pc' = "insn" /\ UNCHANGED tmp
  /\ UNCHANGED <<k, buf, start, end, runs, lo, hi, hs, he, dest, cur, asc>>
L(x) == runs[Len(runs) - x][2]
Collapse ==
  LET n == Len(runs) IN
  IF n >= 2 /\ (runs[n][1] = 0 \/ L(1) <= L(0) \/ (n >= 3 /\ L(2) <= L(1) + L(0)) \/ (n >= 4 /\ L(3) <= L(2) + L(1)))
  THEN IF n >= 3 /\ L(2) < L(0) THEN n - 2 ELSE n - 1
  ELSE 0
Coll ==
  /\ pc = "coll"
  /\ IF Collapse = 0 THEN pc' = "next" /\ UNCHANGED <<buf, lo, hi, hs, he, dest, cur, runs>>
     ELSE LET r == Collapse
              left == runs[r + 1]
              right == runs[r]
              mid == left[1] + left[2]
              top == right[1] + right[2]
              m == left[2] <= right[2]
              size == IF m THEN left[2] ELSE right[2]
              from == IF m THEN left[1] ELSE mid
          IN /\ buf' = [x \in DOMAIN buf |-> IF x < size THEN v[from + x] ELSE buf[x]]
             /\ Assert(size <= Cardinality(DOMAIN buf), "scratch overrun")
             /\ lo' = left[1] /\ hi' = top /\ hs' = 0 /\ he' = size
             /\ dest' = from
             /\ cur' = IF m THEN mid ELSE top
             /\ pc' = IF m THEN "mergeLn" ELSE "mergeRn"
             /\ runs' = [x \in 1..(Len(runs) - 1) |-> IF x < r THEN runs[x] ELSE IF x = r THEN <<left[1], left[2] + right[2]>> ELSE runs[x + 1]]
  /\ UNCHANGED <<k, v, start, end, tmp, hole, i, asc>>
MergeNext ==
  /\ pc \in {"mergeLn", "mergeRn"}
  /\ LET more == IF pc = "mergeLn" THEN hs < he /\ cur < hi ELSE dest > lo /\ he > 0
     IN IF more THEN pc' = (IF pc = "mergeLn" THEN "mergeL" ELSE "mergeR") /\ UNCHANGED <<v, hs, he, buf>>
        ELSE pc' = "coll" /\ v' = Refill /\ hs' = 0 /\ he' = 0 /\ buf' = [x \in DOMAIN buf |-> 0]
  /\ UNCHANGED <<k, start, end, runs, tmp, hole, i, lo, hi, dest, cur, asc>>
MergeL ==
  /\ pc = "mergeL"
  /\ \E a \in Less(v[cur], buf[hs]) :
       IF a THEN v' = [v EXCEPT ![dest] = v[cur]] /\ cur' = cur + 1 /\ UNCHANGED hs
       ELSE v' = [v EXCEPT ![dest] = buf[hs]] /\ hs' = hs + 1 /\ UNCHANGED cur
  /\ dest' = dest + 1 /\ pc' = "mergeLn"
  /\ UNCHANGED <<k, buf, start, end, runs, tmp, hole, i, lo, hi, he, asc>>
MergeR ==
  /\ pc = "mergeR"
  /\ \E a \in Less(buf[he - 1], v[dest - 1]) :
       IF a THEN v' = [v EXCEPT ![cur - 1] = v[dest - 1]] /\ dest' = dest - 1 /\ UNCHANGED he
       ELSE v' = [v EXCEPT ![cur - 1] = buf[he - 1]] /\ he' = he - 1 /\ UNCHANGED dest
  /\ cur' = cur - 1 /\ pc' = "mergeRn"
  /\ UNCHANGED <<k, buf, start, end, runs, tmp, hole, i, lo, hi, hs, asc>>
(* the comparator fails: what is held outside goes back *)
Fail ==
  /\ Asks /= <<>> /\ pc' = "failed"
  /\ v' = IF pc = "ins" THEN [v EXCEPT ![hole] = tmp] ELSE IF pc \in {"mergeL", "mergeR"} THEN Refill ELSE v
  /\ UNCHANGED <<k, buf, start, end, runs, tmp, hole, i, lo, hi, hs, he, dest, cur, asc>>
Next == Scan \/ Probe \/ Grow \/ RunOn \/ Extend \/ Ins0 \/ InsNext \/ Ins \/ Coll \/ MergeNext \/ MergeL \/ MergeR \/ Fail
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* ----------------------------------------------------------- properties *)
Array == [x \in 1..N |-> v[x - 1]]
Held == {v[x] : x \in Idx} \cup {buf[x] : x \in DOMAIN buf}
Kept == Asks /= <<>> => 1..N \subseteq Held \cup {Asks[1], Asks[2]}
Whole == pc \in {"done", "failed"} => Permutation(Array, N)
Sorted == pc = "done" /\ ~Wild => StableSorted(Array, k, 1)
(* runs lie side by side down from the top and are each in order *)
Stack == pc \in {"next", "coll", "done"} =>
  /\ \A x \in 1..(Len(runs) - 1) : runs[x][1] = runs[x + 1][1] + runs[x + 1][2]
  /\ (Len(runs) > 0 => runs[1][1] + runs[1][2] = N)
  /\ (~Wild => \A x \in 1..Len(runs) : StableSorted([y \in 1..runs[x][2] |-> v[runs[x][1] + y - 1]], k, 1))
One == pc = "done" /\ ~Short => runs = <<<<0, N>>>>
Ends == <>(pc \in {"done", "failed"})
==============================================================================
