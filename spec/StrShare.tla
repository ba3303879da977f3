------------------------------ MODULE StrShare ------------------------------
(* Strings that share one buffer, under a collector with two generations.    *)
(*                                                                           *)
(* A string object owns its buffer or views (all or a part of) the buffer of *)
(* a root object. Taking a substring of an unfrozen owner moves the buffer   *)
(* to a new hidden root which both then view; a frozen owner is itself the   *)
(* root. Writing to a view first gives it a buffer of its own. A minor       *)
(* collection keeps old objects, what the slots reach through young objects, *)
(* and what remembered old objects point to.                                 *)
(*                                                                           *)
(* Beside the objects every slot has the value a string without any sharing  *)
(* would have: the two always agree, whoever writes and whatever collections *)
(* happen in between. Each constant set to FALSE leaves one precaution out.  *)
EXTENDS Integers, FiniteSets
CONSTANTS Objs, Slots, Barrier, ReplaceBarrier, CopyOnWrite, FrozenOnlyRoot, WithParts
Null == 0
Junk == 9
Parts == IF WithParts THEN BOOLEAN ELSE {FALSE}
Free == [own |-> Junk, root |-> Null, part |-> FALSE, frozen |-> FALSE, old |-> FALSE, rem |-> FALSE, live |-> FALSE]
VARIABLES obj, slot, want
vars == <<obj, slot, want>>
Owner(v) == [Free EXCEPT !.own = v, !.live = TRUE]
View(r, p) == [Free EXCEPT !.root = r, !.part = p, !.live = TRUE]
Shown(o) == LET x == obj[o] IN
  IF ~x.live THEN <<Junk, FALSE>> ELSE IF x.root = Null THEN <<x.own, x.part>>
  ELSE IF obj[x.root].live THEN <<obj[x.root].own, x.part>> ELSE <<Junk, FALSE>>
Fresh == {o \in Objs : ~obj[o].live}
First(S) == CHOOSE o \in S : \A p \in S : o <= p
Used(s) == slot[s] # Null
\* an old object that comes to point to a young one has to be remembered
Guard(x, r, on, ob) == IF on /\ x.old /\ ~ob[r].old THEN [x EXCEPT !.rem = TRUE] ELSE x

Init == obj = [o \in Objs |-> Free] /\ slot = [s \in Slots |-> Null] /\ want = [s \in Slots |-> <<Junk, FALSE>>]
New(s, v) ==
  /\ Fresh # {}
  /\ LET o == First(Fresh) IN
     /\ obj' = [obj EXCEPT ![o] = Owner(v)]
     /\ slot' = [slot EXCEPT ![s] = o]
     /\ want' = [want EXCEPT ![s] = <<v, FALSE>>]
Sub(s, d, p) ==
  /\ Used(s)
  /\ want' = [want EXCEPT ![d] = <<want[s][1], want[s][2] \/ p>>]
  /\ LET o == slot[s]
         x == obj[o]
     IN IF x.root # Null
        THEN /\ Fresh # {}
             /\ LET n == First(Fresh) IN
                /\ obj' = [obj EXCEPT ![n] = View(x.root, x.part \/ p)]
                /\ slot' = [slot EXCEPT ![d] = n]
        ELSE IF x.frozen \/ ~FrozenOnlyRoot
        THEN /\ Fresh # {}
             /\ LET n == First(Fresh) IN
                /\ obj' = [obj EXCEPT ![n] = View(o, x.part \/ p)]
                /\ slot' = [slot EXCEPT ![d] = n]
        ELSE /\ Cardinality(Fresh) >= 2
             /\ LET r == First(Fresh)
                    n == First(Fresh \ {r})
                    ob == [obj EXCEPT ![r] = [Owner(x.own) EXCEPT !.frozen = TRUE, !.part = x.part]]
                IN /\ obj' = [ob EXCEPT ![o] = Guard([x EXCEPT !.own = Junk, !.root = r], r, Barrier, ob),
                                        ![n] = View(r, x.part \/ p)]
                   /\ slot' = [slot EXCEPT ![d] = n]
Dup(s, d) ==
  /\ Used(s) /\ Fresh # {}
  /\ LET n == First(Fresh)
         x == obj[slot[s]]
     IN /\ obj' = [obj EXCEPT ![n] = [x EXCEPT !.frozen = FALSE, !.old = FALSE, !.rem = FALSE]]
        /\ slot' = [slot EXCEPT ![d] = n]
  /\ want' = [want EXCEPT ![d] = want[s]]
\* every slot naming the object sees a write to it
Told(o, w) == [t \in Slots |-> IF slot[t] = o THEN w ELSE want[t]]
Write(s) ==
  /\ Used(s) /\ ~obj[slot[s]].frozen
  /\ LET o == slot[s]
         x == obj[o]
         v == 1 - want[s][1]
     IN /\ want' = Told(o, <<v, want[s][2]>>)
        /\ IF x.root = Null THEN obj' = [obj EXCEPT ![o].own = v]
           ELSE IF CopyOnWrite THEN obj' = [obj EXCEPT ![o] = [x EXCEPT !.own = v, !.root = Null]]
           ELSE obj' = [obj EXCEPT ![x.root].own = v]
  /\ UNCHANGED slot
Replace(s, t) ==
  /\ Used(s) /\ Used(t) /\ slot[s] # slot[t] /\ ~obj[slot[s]].frozen
  /\ LET o == slot[s]
         x == obj[o]
         y == obj[slot[t]]
         z == [x EXCEPT !.own = y.own, !.root = y.root, !.part = y.part]
     IN obj' = [obj EXCEPT ![o] = IF y.root = Null THEN z ELSE Guard(z, y.root, ReplaceBarrier, obj)]
  /\ want' = Told(slot[s], want[t])
  /\ UNCHANGED slot
Freeze(s) ==
  /\ Used(s) /\ ~obj[slot[s]].frozen
  /\ obj' = [obj EXCEPT ![slot[s]].frozen = TRUE]
  /\ UNCHANGED <<slot, want>>
Alias(s, d) ==
  /\ Used(s) /\ s # d
  /\ slot' = [slot EXCEPT ![d] = slot[s]] /\ want' = [want EXCEPT ![d] = want[s]]
  /\ UNCHANGED obj
Drop(s) ==
  /\ Used(s)
  /\ slot' = [slot EXCEPT ![s] = Null] /\ want' = [want EXCEPT ![s] = <<Junk, FALSE>>]
  /\ UNCHANGED obj
Collect(full) ==
  LET named == {slot[s] : s \in Slots} \ {Null}
      \* a minor collection does not look into old objects unless they are remembered
      seen == {o \in named : full \/ ~obj[o].old \/ obj[o].rem}
              \cup (IF full THEN {} ELSE {o \in Objs : obj[o].live /\ obj[o].old /\ obj[o].rem})
      kept == named \cup ({obj[o].root : o \in seen} \ {Null})
              \cup (IF full THEN {} ELSE {o \in Objs : obj[o].live /\ obj[o].old})
  IN /\ obj' = [o \in Objs |-> IF ~obj[o].live \/ o \notin kept THEN Free ELSE [obj[o] EXCEPT !.old = TRUE, !.rem = FALSE]]
     /\ UNCHANGED <<slot, want>>
Next ==
  \/ \E s \in Slots : New(s, 0)
  \/ \E s, d \in Slots, p \in Parts : Sub(s, d, p)
  \/ \E s, d \in Slots : Dup(s, d)
  \/ \E s, d \in Slots : Alias(s, d)
  \/ \E s, t \in Slots : Replace(s, t)
  \/ \E s \in Slots : Write(s) \/ Freeze(s) \/ Drop(s)
  \/ \E full \in BOOLEAN : Collect(full)
Spec == Init /\ [][Next]_vars

Independent == \A s \in Slots : Used(s) => Shown(slot[s]) = want[s]
\* a root is frozen, owns its buffer and stays as long as somebody views it
RootsFrozen == \A o \in Objs : obj[o].live /\ obj[o].root # Null /\ (\E s \in Slots : slot[s] = o) =>
  LET r == obj[obj[o].root] IN r.live /\ r.frozen /\ r.root = Null
\* what an old object points to is old, or the object is remembered
Generations == \A o \in Objs : (\E s \in Slots : slot[s] = o) /\ obj[o].old /\ obj[o].root # Null =>
  obj[obj[o].root].old \/ obj[o].rem
=============================================================================
