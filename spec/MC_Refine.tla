---------------------------- MODULE MC_Refine ------------------------------
(* What activating refinements amounts to, over every history of at most     *)
(* Depth steps with a class C, its subclass D and three modules that may     *)
(* hold refinements of either, one of them included in another.              *)
EXTENDS Classes
CONSTANT Depth
VARIABLES st, op, was
vars == <<st, op, was>>
C == 4
D == 5
Holders == 6..8
Begin == [Start EXCEPT !.c = @ \o << [Fresh("class", Object) EXCEPT !.tab[1] = [k |-> "def", f |-> 1, v |-> 0, o |-> 4]],
                                    Fresh("class", C), Fresh("module", 0), Fresh("module", 0), Fresh("module", 0)>>]
Init == st = Begin /\ op = <<"start", 0>> /\ was = << >>
Refinements == {x \in 9..Len(st.c) : st.c[x].of # 0}
Ops == {<<"refine", h, x>> : h \in Holders, x \in {C, D}}
       \cup {<<"using", s, h>> : s \in 1..Len(st.s), h \in Holders}
       \cup {<<"include", 6, 7>>}
       \cup {<<"def", x, 1, x - 4, 0>> : x \in Refinements \cup {D}}
       \cup {<<"undef", x, 1>> : x \in {C, D}}
Allowed(o) == o[1] = "refine" => \A k \in 1..Len(st.c[o[2]].refs) : st.c[st.c[o[2]].refs[k]].of # o[3]
Next == /\ TLCGet("level") <= Depth
        /\ \E o \in Ops : Allowed(o) /\ st' = Step(st, o).st /\ st' # st /\ op' = o /\ was' = st
Spec == Init /\ [][Next]_vars
Found(x, set) == Lookup(st, x, 1, set)
\* a set never changes once it is there
Fixed == was # << >> => Len(st.s) >= Len(was.s) /\ \A k \in 1..Len(was.s) : st.s[k] = was.s[k]
\* each combination is there once, no refinement is in it twice
Distinct == /\ \A i, k \in 1..Len(st.s) : Same(st.s[i], st.s[k]) => i = k
            /\ \A k \in 1..Len(st.s) : \A i, j \in 1..Len(st.s[k]) : st.s[k][i] = st.s[k][j] => i = j
\* what is activated is exactly what was and what the module offers
Added == op[1] = "using" => LET new == st.s[Step(was, op).r[1]]
                                off == Offered(was, Ancestors(was, op[3]))
                            IN Range(new) = Range(was.s[op[2]]) \cup Range(off)
\* the module used last wins for what it refines itself
Latest == \A s \in 1..Len(st.s), h \in Holders :
  LET set == st.s[Step(st, <<"using", s, h>>).r[1]] IN
    Step(st, <<"using", s, h>>).st = st =>
      \A k \in 1..Len(st.c[h].refs) : LET x == st.c[h].refs[k] IN
        st.c[x].tab[1].k = "def" => Found(st.c[x].of, set)[1] = st.c[x].tab[1].f
\* activating the same again changes nothing
Again == \A s \in 1..Len(st.s), h \in Holders :
  LET off == Offered(st, Ancestors(st, h)) IN
    Activated(Activated(st.s[s], off), off) = Activated(st.s[s], off)
\* without activation nothing is refined, and a refinement of a class does not
\* reach what a subclass defines or undefines nearer
Plain == /\ Found(C, <<>>) = Method(st, C, 1)
         /\ \A s \in 1..Len(st.s) : (\A p \in Range(st.s[s]) : p[1] # D) /\ st.c[D].tab[1].k # "none" =>
              Found(D, st.s[s]) = Method(st, D, 1)
\* an undefined method of the class itself is found again through a refinement
Refound == \A s \in 1..Len(st.s) : Refined(st, st.s[s], C, 1) # <<>> => Found(C, st.s[s]) # Miss
=============================================================================
