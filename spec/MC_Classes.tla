---------------------------- MODULE MC_Classes -----------------------------
(* What the rules of Classes amount to, over every history of at most Depth  *)
(* steps with three modules, a class, its subclass and a singleton class.    *)
EXTENDS Classes
CONSTANTS Depth, Methods
VARIABLES st, op, was
vars == <<st, op, was>>
Modules == 4..6
C == 7
D == 8
S == 9
Begin == [Start EXCEPT !.c = @ \o <<Fresh("module", 0), Fresh("module", 0), Fresh("module", 0),
                                   Fresh("class", Object), Fresh("class", C), Fresh("single", D)>>]
Init == st = Begin /\ op = <<"start", 0>> /\ was = << >>
Mixes == {<<o, x, m>> : o \in {"include", "prepend"}, x \in 4..9, m \in Modules}
\* for Methods = 1: the name 1 only, one function per class
Tables == {<<"def", x, 1, x - 3, v>> : x \in 4..9, v \in {0, 2}} \cup {<<"undef", x, 1>> : x \in 4..9}
          \cup {<<"remove", x, 1>> : x \in 4..9} \cup {<<"vis", x, 1, v>> : x \in 4..9, v \in {0, 2}}
          \cup {<<"def", Object, 1, 8, 0>>}
Next == /\ TLCGet("level") <= Depth
        /\ \E o \in Mixes \cup (IF Methods = 1 THEN Tables ELSE {}) :
             Step(st, o).r = <<0>> /\ st' = Step(st, o).st /\ st' # st /\ op' = o /\ was' = st
Spec == Init /\ [][Next]_vars
All == 1..9
Anc(x) == Ancestors(st, x)
\* the places of the elements of s, in order, when t is read from left to right
RECURSIVE Within(_, _)
Within(s, t) == IF s = <<>> THEN TRUE ELSE IF t = <<>> THEN FALSE
                ELSE IF s[1] = t[1] THEN Within(Tail(s), Tail(t)) ELSE Within(s, Tail(t))
\* a subclass's list ends with the list of its superclass
Tails == \A x \in All : st.c[x].sup # 0 => LET a == Anc(x) b == Anc(st.c[x].sup)
                                            IN Len(a) > Len(b) /\ From(a, Len(a) - Len(b) + 1) = b
\* every class is once in its own list
Once == \A x \in All : Cardinality({k \in 1..Len(Anc(x)) : Anc(x)[k] = x}) = 1
\* nothing is lost and nothing changes places
Kept == was # << >> => \A x \in All :
          Within(IF op[1] = "prepend" THEN Select(Ancestors(was, x), Range(st.c[op[2]].pre)) ELSE Ancestors(was, x), Anc(x))
\* include concerns one list and those of its heirs only
Alone == op[1] = "include" => \A x \in All : x # op[2] => Region(st, x) = Region(was, x)
\* what is mixed in comes with all its ancestors
Whole == op[1] \in {"include", "prepend"} =>
          Range(Region(was, op[3])) \subseteq Range(Anc(op[2]))
\* a prepended module is found before the class, for everyone who sees the class
Before == op[1] = "prepend" => \A x \in All :
            LET a == Chain(st, x) IN op[2] \in Range(Region(st, x)) => Pos(a, op[3]) < Pos(a, op[2])
\* an included one after it, unless it is also prepended
Behind == op[1] = "include" /\ op[3] \notin Range(st.c[op[2]].pre)
            => Pos(Anc(op[2]), op[3]) > Pos(Anc(op[2]), op[2])
------------------------------------------------------------------------------
\* the answer of a lookup is the entry of one of the ancestors, and nobody
\* nearer has one that hides it
Nearest == \A x \in All : LET m == Method(st, x, 1) a == Chain(st, x) IN
  IF m = Miss THEN \A k \in 1..Len(a) : st.c[a[k]].tab[1].k = "def" => \E j \in 1..k : st.c[a[j]].tab[1].k = "undef"
  ELSE \A k \in 1..Len(a) : st.c[a[k]].tab[1].k = "def" /\ (\A j \in 1..k-1 : st.c[a[j]].tab[1].k \in {"none", "shadow"})
         => m[1] = st.c[a[k]].tab[1].f
\* following super from a method visits the definitions in order and ends
Downward == \A x \in All : LET ps == Places(st, x) IN
  \A f \in 1..8 : LET at == Runs(st, ps, 1, f) IN \A k \in 1..Len(at) :
     LET g == After(st, ps, at[k], 1) IN
       g # 0 => \E j \in at[k]+1..Len(ps) : st.c[ps[j].c].tab[1].k \in {"def", "shadow"} /\ st.c[ps[j].c].tab[1].f = g
\* where no visibility was changed and Object defines nothing, the lists say
\* what the lookup says
Agree == (\A x \in All : st.c[x].tab[1].k # "shadow") /\ st.c[Object].tab[1].k = "none" =>
  \A x \in 4..9 : LET m == Method(st, x, 1) IN
    /\ (1 \in Shown(st, BelowObject(st, x), {0, 1})) = (m # Miss /\ m[2] \in {0, 1})
    /\ (1 \in Shown(st, BelowObject(st, x), {2})) = (m # Miss /\ m[2] = 2)
    /\ Known(st, x, 1) = (IF m = Miss THEN -1 ELSE m[2])
=============================================================================
