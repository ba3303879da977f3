---------------------------- MODULE Sim_RawTable -----------------------------
(* Random walks of RawTable with the real group width, steered by the model's   *)
(* own state towards what plain random histories hardly reach: full tables,     *)
(* tables of tombstones, probe sequences that wrap, cleaning up in place.  The   *)
(* walk is printed as operations and the capacities the model predicts.         *)
EXTENDS RawTable, Json
CONSTANTS Depth, MaxN
VARIABLES t, goal, style, nid, path, caps, stats
vars == <<t, goal, style, nid, path, caps, stats>>
R(S) == RandomElement(S)      \* bind with \E: a LET would draw again at every use
Styles == {"spread", "one", "edge", "far", "two"}
H1(s) == CASE s = "spread" -> R(0..127) [] s = "one" -> 5
           [] s = "edge" -> R({0, 1, 14, 15, 16, 31, 30, 63, 127})
           [] s = "far" -> 16 * R(0..7)  [] OTHER -> R({3, 19})
Init == /\ t = Unallocated /\ goal = "fill" /\ style \in Styles /\ nid = 1
        /\ path = <<>> /\ caps = <<>> /\ stats = <<0, 0, 0>>
Did(op, t2, kind) ==
  /\ t' = t2 /\ path' = Append(path, op) /\ caps' = Append(caps, Capacity(t2))
  /\ stats' = [stats EXCEPT ![1] = @ + (IF kind = "inplace" THEN 1 ELSE 0),
                            ![2] = @ + (IF kind = "tomb" THEN 1 ELSE 0),
                            ![3] = @ + (IF kind = "resize" THEN 1 ELSE 0)]
  /\ style' = style
PutOp(s) ==
  \E h \in {H1(s)}, g \in {R({3, 5})} :
  LET e == <<nid, h, g>>
      grows == t.gl = 0 /\ t.c[InsertSlot(t, h)] = Empty
  IN /\ nid' = nid + 1 /\ UNCHANGED goal
     /\ Did(<<0, nid, h, g>>, Insert(t, e), IF ~grows THEN "" ELSE IF InPlace(t, 1) THEN "inplace" ELSE "resize")
TakeOp(low) ==
  LET S == {i \in 0..(t.n - 1) : Full(t, i)} IN
  \E i \in {IF low THEN MinOf(S) ELSE R(S)} :
     /\ UNCHANGED <<nid, goal>>
     /\ Did(<<1, t.d[i][1], 0, 0>>, Erase(t, i), IF Tombstone(t, i) THEN "tomb" ELSE "")
Turn(g) == goal' = g /\ UNCHANGED <<t, style, nid, path, caps, stats>>
Rare == \E k \in {R(0..3)}, m \in {R(0..40)} :
  /\ UNCHANGED <<nid, goal>>
  /\ CASE k = 0 -> Did(<<2, m, 0, 0>>, Reserve(t, m), "resize")
       [] k = 1 -> Did(<<3, m, 0, 0>>, ShrinkTo(t, m), "resize")
       [] k = 2 -> Did(<<3, 0, 0, 0>>, ShrinkTo(t, 0), "resize")
       [] OTHER -> IF R(1..4) = 1 THEN Did(<<4, 0, 0, 0>>, Clear(t), "") ELSE Did(<<2, 1, 0, 0>>, Reserve(t, 1), "")
Go ==
  /\ Len(path) < Depth
  /\ IF R(1..40) = 1 THEN Rare
     ELSE CASE goal = "fill" ->    \* use up the room that is left
                 IF t.gl = 0 /\ (t.n >= MaxN \/ R(1..2) = 1) THEN Turn(R({"drop", "replace"})) ELSE PutOp(style)
            [] goal = "drop" ->    \* take out until a clean-up in place is due
                 IF t.items = 0 \/ t.items < CapOf(t.n) \div 2 THEN Turn(R({"saturate", "fill"})) ELSE TakeOp(style = "one")
            [] goal = "replace" -> \* swap one for one: tombstones pile up
                 IF R(1..12) = 1 \/ t.items < 2 THEN Turn("drop") ELSE IF t.gl > 0 /\ R(1..2) = 1 THEN PutOp(style) ELSE TakeOp(FALSE)
            [] OTHER ->            \* saturate: insert up to the clean-up itself
                 IF t.gl > 0 THEN PutOp(style)
                 ELSE IF t.items > 0 /\ t.items >= CapOf(t.n) \div 2 THEN (IF R(1..6) = 1 THEN Turn("replace") ELSE TakeOp(FALSE))
                 ELSE /\ \E h \in {H1(style)} :
                          /\ goal' = R({"fill", "drop", "replace"}) /\ nid' = nid + 1
                          /\ Did(<<0, nid, h, 3>>, Insert(t, <<nid, h, 3>>), IF t.c[InsertSlot(t, h)] = Empty THEN "inplace" ELSE "")
Done == Len(path) = Depth /\ PrintT(ToJson([p |-> path, c |-> caps, z |-> stats])) /\ path' = Append(path, <<9, 0, 0, 0>>)
        /\ UNCHANGED <<t, goal, style, nid, caps, stats>>
Next == Go \/ Done
Spec == Init /\ [][Next]_vars
Inv == TableOk(t)
==============================================================================
