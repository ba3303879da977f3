---------------------------- MODULE MC_Constants ----------------------------
(* What the rules of Constants amount to, over every history of at most      *)
(* Depth steps with a module, a class and its subclass.                      *)
EXTENDS Constants
CONSTANTS Depth, What
VARIABLES st, op, was, ans
vars == <<st, op, was, ans>>
World == Act(Act(Act(Begin, <<"module">>).st, <<"class", Object>>).st, <<"class", 5>>).st
Init == st = World /\ op = <<"start">> /\ was = World /\ ans = <<0>>
All == 4..6
Mixes == {<<o, x, 4>> : o \in {"include", "prepend"}, x \in {5, 6}}
Values == {<<"set", x, 1, x>> : x \in {Object} \cup All} \cup {<<"auto", x, 1, f>> : x \in All, f \in {1, 2}}
          \cup {<<"mark", x, 1, 1>> : x \in All} \cup {<<"unset", 5, 1>>}
          \cup {<<"read", x, 1, k, p, q, 0, y, 9>> : x \in {5, 6}, k \in {0, 2, 3}, p \in 0..3, q \in {0, 1, 3}, y \in {4, 5}}
          \cup {<<"read", 6, 1, 1, p, q, 0, y, 9>> \o sc : sc \in {<<-1, 0, 4, 5>>, <<-1, 0, 4, 6>>, <<1, 5, 4, 6>>}, p \in 0..3, q \in 0..3, y \in {4, 5}}
Variables == {<<"cvset", x, n, x, 0>> : x \in All, n \in 1..2} \cup {<<"cvunset", x, 1>> : x \in All}
Next == /\ TLCGet("level") <= Depth
        /\ \E o \in Mixes \cup (IF What = "con" THEN Values ELSE Variables) :
             LET x == Act(st, o) IN st' = x.st /\ ans' = x.r /\ op' = o /\ was' = st
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
\* nothing is left half loaded
Settled == \A x \in 1..6 : st.k[x][1].k = "auto" => st.k[x][1].s = 0
rd == Reading(op)
Asked == IF op[1] # "read" THEN <<>>
         ELSE IF rd.kind = 0 THEN <<rd.start>>
         ELSE IF rd.kind = 1 THEN Scoped(was, rd.scopes)
         ELSE IF rd.kind = 2 THEN Order(was, rd.start) ELSE Qualified(was, rd.start)
\* a value that is read is the nearest one there is, unless a file set it
\* behind the back of the search; nothing is read only if there is nothing
Straight == \A x \in All : was.k[x][1].k = "auto" => x = rd.place
Found == op[1] = "read" /\ ans[1] > 0 =>
           /\ \E k \in 1..Len(Asked) : LET e == st.k[Asked[k]][1] IN e.k = "val" /\ e.v = ans[1]
           /\ Straight => LET w == Where(st, Asked, 1) IN st.k[w][1].k = "val" /\ st.k[w][1].v = ans[1]
Gone == op[1] = "read" /\ ans[1] = 0 => \A k \in 1..Len(Asked) : st.k[Asked[k]][1].k # "auto"
\* reading once more gives the same without loading anything, and a file that
\* raises may be tried again
Same2 == op[1] = "read" /\ ans[1] > 0 /\ Straight => Read(st, rd, <<>>).v = ans[1] /\ Read(st, rd, <<>>).st = st
Retry == op[1] = "read" /\ ans[1] = -1 /\ Straight => Read(st, rd, <<>>).v = -1
\* a file that raises at once changes nothing
Undone == op[1] = "read" /\ ans \in {<<-1, 1>>, <<-1, 2>>} => st = was
\* each file is loaded at most once for each table that waits for it
Few == op[1] = "read" => Len(SelectSeq(Tail(ans), LAMBDA x : x \in 1..3)) <= Cardinality({x \in 1..6 : was.k[x][1].k = "auto"})
\* privacy survives everything but removal
Kept2 == op[1] \in {"set", "auto"} => st.k[op[2]][1].p = was.k[op[2]][1].p
\* what is listed is what can be named
Listed == (\A x \in All : st.cl.c[x].pre = <<>>) => \A x \in All : (1 \in Range(Names(st, x))) = (Probes(st, x, 1)[4] = 1)
------------------------------------------------------------------------------
\* a variable belongs to one class, and everyone below agrees on that
Mine == \A x \in All : HasVar(st, x, 1) => GetVar(st, x, 1) \in {<<x, VarOf(st, x, 1)>>, <<-1>>}
Overtaken == \A x \in All : (GetVar(st, x, 1) = <<-1>>)
               = (Cardinality({y \in Range(Ancestors(st.cl, x)) : HasVar(st, y, 1)}) > 1)
Below == LET a == GetVar(st, 5, 1) b == GetVar(st, 6, 1) IN a # <<>> => b = a \/ b = <<-1>>
Others == op[1] = "cvset" => \A x \in All : x # op[2] => st.v[x] = was.v[x]
=============================================================================
