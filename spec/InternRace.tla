----------------------------- MODULE InternRace -----------------------------
(* Interning from several threads: look under the shared lock; on a miss take   *)
(* the exclusive lock, look again and only then add.  Each lock section is one  *)
(* step.  Recheck says whether the second look is made.                        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Names, Calls, Recheck
VARIABLES rev, table, pc, want, got, left
vars == <<rev, table, pc, want, got, left>>
Init ==
  /\ rev = [n \in Names |-> 0] /\ table = <<>>
  /\ pc = [t \in Threads |-> "idle"] /\ want = [t \in Threads |-> CHOOSE n \in Names : TRUE]
  /\ got = {} /\ left = [t \in Threads |-> Calls]
Call(t) == pc[t] = "idle" /\ left[t] > 0 /\ \E n \in Names :
  want' = [want EXCEPT ![t] = n] /\ pc' = [pc EXCEPT ![t] = "look"] /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<rev, table, got>>
Look(t) ==
  /\ pc[t] = "look"
  /\ LET n == want[t] IN
     IF rev[n] /= 0 THEN got' = got \cup {<<n, rev[n]>>} /\ pc' = [pc EXCEPT ![t] = "idle"]
     ELSE pc' = [pc EXCEPT ![t] = "add"] /\ UNCHANGED got
  /\ UNCHANGED <<rev, table, want, left>>
Add(t) ==
  /\ pc[t] = "add" /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ LET n == want[t] IN
     IF Recheck /\ rev[n] /= 0 THEN got' = got \cup {<<n, rev[n]>>} /\ UNCHANGED <<rev, table>>
     ELSE /\ table' = Append(table, n) /\ rev' = [rev EXCEPT ![n] = Len(table) + 1]
          /\ got' = got \cup {<<n, Len(table) + 1>>}
  /\ UNCHANGED <<want, left>>
Next == \E t \in Threads : Call(t) \/ Look(t) \/ Add(t)
Spec == Init /\ [][Next]_vars
OneToOne == \A a, b \in got : (a[1] = b[1]) <=> (a[2] = b[2])
Named == \A a \in got : table[a[2]] = a[1]
==============================================================================
