------------------------------- MODULE HashRep -------------------------------
(* How the runtime represents a Hash, next to what RubyHash says it is.      *)
(* Small hashes keep up to Cap pairs with immediate keys (any keys once they *)
(* are compared by identity) in the object itself, with the number of open   *)
(* traversals in a few header bits: at IterMax a further traversal is        *)
(* admitted uncounted.  Everything else is a boxed entry vector, a default,  *)
(* an exact traversal counter and a count of dead entries: a deletion during *)
(* a traversal leaves a dead entry behind (key 0), which the next change     *)
(* outside traversals compacts away.                                         *)
EXTENDS RubyHash
CONSTANTS Cap, IterMax, MaxDepth,
  ReplaceRefused,   \* replacing the content during a traversal raises
  ModeCompacts,     \* changing the mode of an empty hash forgets its dead entries
  PromoteCarries    \* the traversal count moves along into the boxed form
VARIABLES boxed, slots, dead, bits, lev, ident, def, walks, h
vars == <<boxed, slots, dead, bits, lev, ident, def, walks, h>>
Keys == {1, 2, 100, 101}
Vals == {5}

Active == IF boxed THEN lev > 0 ELSE bits > 0
Live(s) == SelectSeq(s, LAMBDA x : x.k # 0)
Find(s, k) ==
  LET M == {i \in 1..Len(s) : s[i].k # 0 /\ (IF ident THEN s[i].k = k ELSE Cls(s[i].k) = Cls(k))}
  IN IF M = {} THEN 0 ELSE CHOOSE i \in M : TRUE
Abs(o) == Step([h |-> <<h>>, outer |-> <<>>, dig |-> {}], o)
\* the abstract hash takes step o and answers r
Follows(o, r) == h' = Abs(o).s.h[1] /\ Abs(o).r = r

Init ==
  /\ boxed = FALSE /\ slots = <<>> /\ dead = 0 /\ bits = 0 /\ lev = 0
  /\ ident = FALSE /\ def = Nil /\ walks = <<>> /\ h = Empty

\* what an operation works on after moving an inline hash into its boxed form
PLev == IF boxed THEN lev ELSE IF PromoteCarries THEN bits ELSE 0
\* entries after compaction (only ever done outside traversals)
Tidy == IF ~Active /\ boxed THEN Live(slots) ELSE slots
TidyDead == IF ~Active /\ boxed THEN 0 ELSE dead

Store(k, v) ==
  LET i == Find(Tidy, k)
  IN /\ IF Active /\ i = 0
        THEN UNCHANGED <<boxed, slots, dead, bits, lev>>
        ELSE IF i > 0
        THEN slots' = [Tidy EXCEPT ![i].v = v] /\ dead' = TidyDead /\ UNCHANGED <<boxed, bits, lev>>
        ELSE /\ slots' = Append(Tidy, [k |-> k, v |-> v])
             /\ dead' = TidyDead
             /\ IF boxed \/ ((ident \/ ~Heap(k)) /\ Len(slots) < Cap)
                THEN UNCHANGED <<boxed, bits, lev>>
                ELSE boxed' = TRUE /\ bits' = 0 /\ lev' = PLev
     /\ Follows(<<"store", <<1, k, v>>>>, IF Active /\ i = 0 THEN IsBusy ELSE Ok)
     /\ UNCHANGED <<ident, def, walks>>

\* dead in place during a traversal, closing the gap otherwise
RemoveAt(i) ==
  IF Active
  THEN /\ slots' = [slots EXCEPT ![i] = [k |-> 0, v |-> Nil]]
       /\ dead' = dead + 1
       /\ boxed' = TRUE /\ bits' = 0 /\ lev' = PLev
  ELSE LET j == Cardinality({x \in 1..i : slots[x].k # 0})
           s == Live(slots)
       IN /\ slots' = SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
          /\ dead' = 0
          /\ UNCHANGED <<boxed, bits, lev>>
Delete(k) ==
  LET i == Find(slots, k)
  IN /\ IF i > 0 THEN RemoveAt(i)
        ELSE \* an inline hash moves before it is known that the key is missing
             IF Active THEN boxed' = TRUE /\ bits' = 0 /\ lev' = PLev /\ UNCHANGED <<slots, dead>>
             ELSE slots' = Live(slots) /\ dead' = 0 /\ UNCHANGED <<boxed, bits, lev>>
     /\ Follows(<<"del", <<1, k>>>>, IF i = 0 THEN None ELSE Val(slots[i].v))
     /\ UNCHANGED <<ident, def, walks>>
Shift ==
  LET M == {i \in 1..Len(slots) : slots[i].k # 0}
      i == CHOOSE x \in M : \A y \in M : x <= y
  IN /\ IF M = {} THEN UNCHANGED <<boxed, slots, dead, bits, lev>> ELSE RemoveAt(i)
     /\ Follows(<<"shift", <<1>>>>, IF M = {} THEN None ELSE <<"pair", <<slots[i].k, slots[i].v>>>>)
     /\ UNCHANGED <<ident, def, walks>>
Clear ==
  /\ IF Active THEN UNCHANGED <<boxed, slots, dead, bits, lev>>
     ELSE /\ slots' = <<>> /\ dead' = 0
          /\ boxed' = (boxed /\ def # Nil)
          /\ UNCHANGED <<bits, lev>>
  /\ Follows(<<"clear", <<1>>>>, IF Active THEN IsBusy ELSE Ok)
  /\ UNCHANGED <<ident, def, walks>>
SetDefault(v) ==
  /\ def' = v
  /\ IF v = Nil \/ boxed THEN UNCHANGED <<boxed, bits, lev>>
     ELSE boxed' = TRUE /\ bits' = 0 /\ lev' = PLev
  /\ Follows(<<"setdef", <<1, v>>>>, Ok)
  /\ UNCHANGED <<slots, dead, ident, walks>>
ByIdentity ==
  /\ IF Active THEN UNCHANGED <<slots, dead, ident>>
     ELSE slots' = Live(slots) /\ dead' = 0 /\ ident' = TRUE
  /\ Follows(<<"ident", <<1>>>>, IF Active THEN IsBusy ELSE Ok)
  /\ UNCHANGED <<boxed, bits, lev, def, walks>>
\* the mode of an empty hash, either way
Mode(b) ==
  /\ h.e = <<>>
  /\ IF Active \/ ident = b
     THEN UNCHANGED <<boxed, slots, dead, ident>>
     ELSE /\ ident' = b
          /\ slots' = <<>>
          /\ IF ~b /\ boxed /\ def = Nil THEN boxed' = FALSE /\ dead' = 0
             ELSE dead' = (IF ModeCompacts THEN 0 ELSE dead) /\ UNCHANGED boxed
  /\ Follows(<<"mode", <<1, IF b THEN 1 ELSE 0>>>>, IF Active THEN IsBusy ELSE Ok)
  /\ UNCHANGED <<bits, lev, def, walks>>
\* the content of another hash: inline and empty, or boxed with one pair
Replace(big) ==
  LET other == IF big THEN [Empty EXCEPT !.e = <<[k |-> 100, v |-> 5]>>] ELSE Empty
      refuse == ReplaceRefused /\ Active
  IN /\ IF refuse THEN UNCHANGED <<boxed, slots, dead, lev, ident, def>>
        ELSE /\ boxed' = big /\ slots' = other.e /\ dead' = 0 /\ ident' = FALSE /\ def' = Nil
             /\ lev' = 0
     /\ bits' = bits
     /\ h' = (IF Busy(h) THEN h ELSE other)
    
     /\ UNCHANGED walks
Begin ==
  /\ Len(walks) < MaxDepth
  /\ LET real == boxed \/ bits < IterMax
     IN /\ walks' = Append(walks, [real |-> real, pos |-> 0, cur |-> 0])
        /\ bits' = (IF ~boxed /\ real THEN bits + 1 ELSE bits)
        /\ lev' = (IF boxed THEN lev + 1 ELSE lev)
  /\ Follows(<<"begin", <<1, 0>>>>, Ok)
  /\ UNCHANGED <<boxed, slots, dead, ident, def>>
\* by position, skipping what is dead
Advance(t) ==
  /\ t <= Len(walks)
  /\ LET M == {i \in walks[t].pos + 1..Len(slots) : slots[i].k # 0}
         i == CHOOSE x \in M : \A y \in M : x <= y
     IN /\ walks' = [walks EXCEPT ![t].pos = (IF M = {} THEN Len(slots) ELSE i), ![t].cur = (IF M = {} THEN 0 ELSE i)]
        /\ Follows(<<"next", <<1, t>>>>, IF M = {} THEN None ELSE <<"pair", <<slots[i].k, slots[i].v>>>>)
  /\ UNCHANGED <<boxed, slots, dead, bits, lev, ident, def>>
SetAt(t, v) ==
  /\ t <= Len(walks)
  /\ LET c == walks[t].cur
     IN slots' = (IF c > 0 /\ c <= Len(slots) /\ slots[IF c > 0 /\ c <= Len(slots) THEN c ELSE 1].k # 0
                  THEN [slots EXCEPT ![c].v = v] ELSE slots)
  /\ Follows(<<"setat", <<1, t, v>>>>, Ok)
  /\ UNCHANGED <<boxed, dead, bits, lev, ident, def, walks>>
End ==
  /\ walks # <<>>
  /\ LET t == walks[Len(walks)]
     IN /\ bits' = (IF t.real /\ ~boxed THEN bits - 1 ELSE bits)
        /\ lev' = (IF t.real /\ boxed THEN lev - 1 ELSE lev)
  /\ walks' = SubSeq(walks, 1, Len(walks) - 1)
  /\ Follows(<<"end", <<1>>>>, Ok)
  /\ UNCHANGED <<boxed, slots, dead, ident, def>>

Next ==
  /\ \/ \E k \in Keys, v \in Vals : Store(k, v)
     \/ \E k \in Keys : Delete(k)
     \/ Shift \/ Clear \/ ByIdentity \/ Begin \/ End
     \/ \E v \in {Nil, 7} : SetDefault(v)
     \/ \E b \in BOOLEAN : Mode(b) \/ Replace(b)
     \/ \E t \in 1..MaxDepth : Advance(t) \/ SetAt(t, 6)
Spec == Init /\ [][Next]_vars

\* an answer that differs from the abstract one would block the step; a step
\* is never blocked, so the answers agree
CanGo ==
  /\ \A k \in Keys, v \in Vals : ENABLED Store(k, v)
  /\ \A k \in Keys : ENABLED Delete(k)
  /\ ENABLED Shift /\ ENABLED Clear /\ ENABLED ByIdentity
  /\ \A t \in 1..Len(walks) : ENABLED Advance(t)

Pairs == [i \in 1..Len(Live(slots)) |-> [k |-> Live(slots)[i].k, v |-> Live(slots)[i].v]]
SameContent ==
  /\ Pairs = h.e
  /\ ident = h.ident
  /\ <<0, def>> = h.def
  /\ Len(slots) - dead = Len(h.e)
  /\ Active = Busy(h)
  /\ bits >= 0 /\ lev >= 0
\* every traversal is where it should be among the entries
SamePlaces ==
  /\ Len(walks) = Len(h.its)
  /\ \A t \in 1..Len(walks) :
       /\ Cardinality({i \in 1..Len(slots) : i <= walks[t].pos /\ slots[i].k # 0}) = h.its[t].p
       /\ (walks[t].cur > 0 /\ walks[t].cur <= Len(slots) /\ slots[IF walks[t].cur \in 1..Len(slots) THEN walks[t].cur ELSE 1].k # 0) = h.its[t].cur
InlineIsSmall ==
  ~boxed => /\ dead = 0 /\ lev = 0 /\ Len(slots) <= Cap /\ def = Nil
            /\ ident \/ \A i \in 1..Len(slots) : ~Heap(slots[i].k)
BoxedCounts == boxed => bits = 0 /\ dead = Len(slots) - Len(Live(slots))
=============================================================================
