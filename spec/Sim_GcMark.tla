----------------------------- MODULE Sim_GcMark -----------------------------
(* Random walks of the collector's mechanism, steered to what makes it wrong   *)
(* when it is wrong: old objects that get young children, lose them, die, and  *)
(* are collected by minor and full collections in between.  Printed as the     *)
(* operations of the harness with the predicted sizes of the remembered set.  *)
EXTENDS GcMark, TLC, Json
CONSTANT Depth
VARIABLES m, nid, path, sizes
vars == <<m, nid, path, sizes>>
R(S) == RandomElement(S)
Init == m = Blank /\ nid = 1 /\ path = <<>> /\ sizes = <<>>
Did(ops, n) == m' = n /\ path' = path \o ops /\ sizes' = sizes \o [k \in 1..Len(ops) |-> IF k < Len(ops) THEN -1 ELSE Cardinality(n.rem)]
Same == UNCHANGED nid
NewOp == \E r \in {R(RootPlaces)} :
  /\ nid' = nid + 1
  /\ Did(<<<<"new", 1, 1, 1>>, <<"root", r, nid, 0>>>>, New(m, nid, r))
(* store into an object, preferably an old one, preferably a young child *)
StoreOp(from, to) == \E o \in {R(from)}, s \in {R(Places)}, b \in {R(to)} :
  Same /\ Did(<<<<"set", o, 0, s, b, 0>>>>, Store(m, o, s, b))
RootOp(to) == \E r \in {R(RootPlaces)}, b \in {R(to)} : Same /\ Did(<<<<"root", r, b, 0>>>>, SetRoot(m, r, b))
Gc == Same /\ Did(<<<<"gc">>>>, Collect(m, FALSE))
Full == Same /\ Did(<<<<"full">>>>, Collect(m, TRUE))
Next ==
  \/ /\ Len(path) < Depth
     /\ \E k \in {R(1..20)} :
        LET U == Reachable(m)
            O == U \cap m.old
            Y == U \ m.old
        IN CASE U = {} \/ k <= 4 -> NewOp
             [] k <= 8 -> Gc
             [] k = 9 -> Full
             [] k <= 13 /\ O /= {} /\ Y /= {} -> StoreOp(O, Y)
             [] k <= 15 /\ Y /= {} -> StoreOp(Y, U)
             [] k = 16 /\ O /= {} -> StoreOp(O, O \cup {0})
             [] k = 17 -> RootOp({0})
             [] k = 18 -> StoreOp(U, U \cup {0})
             [] OTHER -> RootOp(U)
  \/ /\ Len(path) \in Depth..(Depth + 5)
     /\ PrintT(ToJson([p |-> path, z |-> sizes]))
     /\ path' = path \o [k \in 1..10 |-> <<"end">>] /\ UNCHANGED <<m, nid, sizes>>
Spec == Init /\ [][Next]_vars
Inv == GcOk(m)
==============================================================================
