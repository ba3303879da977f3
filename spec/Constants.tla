----------------------------- MODULE Constants -----------------------------
(* Constants and class variables of classes and modules: what a table holds, *)
(* how autoloads pass through their states, in which order classes are asked *)
(* for a constant, and whom a class variable belongs to. Classes, modules    *)
(* and their ancestors are those of Classes.                                 *)
(*                                                                           *)
(* A table entry is a value or the file to load, with the state of loading   *)
(* (0 not yet, 1 just being loaded, 2 loaded without giving a value), and    *)
(* with marks for private and deprecated that stay when the value changes.   *)
EXTENDS Classes
NCon == 2
NVar == 3
None == [k |-> "none", v |-> 0, s |-> 0, p |-> 0, d |-> 0]
NoTable == [n \in 1..NCon |-> None]
NoVars == <<>>                     \* name and value, in the order of definition
Begin == [cl |-> Start, k |-> <<NoTable, NoTable, NoTable>>, v |-> <<NoVars, NoVars, NoVars>>]
------------------------------------------------------------------------------
(* Tables *)
Assigned(st, c, n, v) == [st EXCEPT !.k[c][n] = [@ EXCEPT !.k = "val", !.v = v, !.s = 0]]
Registered(st, c, n, f) ==
  [st EXCEPT !.k[c][n] = IF @.k = "none" THEN [None EXCEPT !.k = "auto", !.v = f]
                         ELSE IF @.k = "val" THEN @
                         ELSE [@ EXCEPT !.v = f, !.s = IF @ = 2 THEN 0 ELSE @]]
InState(st, c, n, s) == IF st.k[c][n].k = "auto" THEN [st EXCEPT !.k[c][n].s = s] ELSE st
Dropped(st, c, n) == [st EXCEPT !.k[c][n] = None]
Marked(st, c, n, m) ==
  IF st.k[c][n].k = "none" THEN st
  ELSE IF m = 2 THEN [st EXCEPT !.k[c][n].d = 1] ELSE [st EXCEPT !.k[c][n].p = m]
\* there for all who do not want to load it
There(e) == e.k = "val" \/ (e.k = "auto" /\ e.s = 0)
------------------------------------------------------------------------------
(* Lookup: the class itself, and then its ancestors in their order. Someone  *)
(* else's class comes behind the modules prepended to it. *)
Order(st, x) == <<x>> \o Chain(st.cl, x)
\* Object's constants are not everybody's when a class is named
Qualified(st, x) == IF x = Object THEN Order(st, x) ELSE SelectSeq(Order(st, x), LAMBDA y : y # Object)
RECURSIVE Where(_, _, _)
Where(st, list, n) == IF list = <<>> THEN 0
                      ELSE IF There(st.k[list[1]][n]) THEN list[1] ELSE Where(st, Tail(list), n)
Probes(st, x, n) ==
  LET q == Where(st, Qualified(st, x), n)
      e == st.k[x][n]
  IN << IF e.k = "val" THEN e.v ELSE 0, IF There(e) THEN 1 ELSE 0,
        IF Where(st, Order(st, x), n) # 0 THEN 1 ELSE 0,
        IF q # 0 /\ st.k[q][n].p = 0 THEN 1 ELSE 0,
        Where(st, Order(st, x), n) >>
\* Reading may load files. What file f does is rd.plan[f]: 0 it raises, 1
\* nothing, 2 it sets the constant of rd.place, 3 the same after the constant
\* was read in the same way. The log holds the files, what was read meanwhile
\* (100 and more), -1 for a warning and who had the constant (1000 and more).
RECURSIVE Read(_, _, _)
RECURSIVE Ask(_, _, _, _)
Result(st, v, log) == [st |-> st, v |-> v, log |-> log]
At(st, c, rd, log) ==
  LET n == rd.name
      e == st.k[c][n]
      f == e.v
      loading == InState(st, c, n, 1)
      after(s, l) ==
        LET x == s.k[c][n] IN
        IF x.k = "val" THEN Result(s, x.v, l) ELSE Result(Dropped(s, c, n), 0, l)
      inner == Read(loading, rd, Append(log, f))
  IN IF e.k = "none" THEN Result(st, 0, log)
     ELSE IF e.k = "val" THEN Result(st, e.v, IF e.d = 1 THEN Append(log, -1) ELSE log)
     ELSE IF e.s # 0 THEN Result(st, 0, log)
     ELSE CASE rd.plan[f] = 0 -> Result(st, -1, Append(log, f))
            [] rd.plan[f] = 1 -> after(loading, Append(log, f))
            [] rd.plan[f] = 2 -> after(Assigned(loading, rd.place, n, rd.value), Append(log, f))
            [] OTHER -> IF inner.v = -1 THEN Result(InState(inner.st, c, n, 0), -1, inner.log)
                        ELSE after(Assigned(inner.st, rd.place, n, rd.value), Append(inner.log, 100 + inner.v))
Ask(st, list, rd, log) ==
  IF list = <<>> THEN Result(st, 0, log)
  ELSE LET r == At(st, list[1], rd, log) IN
       IF r.v > 0 /\ rd.kind = 2 THEN [r EXCEPT !.log = Append(@, 1000 + list[1])]
       ELSE IF r.v # 0 THEN r ELSE Ask(r.st, Tail(list), rd, r.log)
RECURSIVE Turned(_)
Turned(s) == IF s = <<>> THEN <<>> ELSE Append(Turned(Tail(s)), s[1])
\* Where a constant is searched by its name alone: the scopes of the evaluated
\* code, if there is any, with the class it is evaluated for behind the first
\* one, those of the method, and the ancestors of the innermost class. The
\* scopes are the number of the first ones (-1 none), that class, and both.
Last(s) == IF s = <<>> THEN Object ELSE s[Len(s)]
Scoped(st, sc) ==
  LET k == IF sc[1] < 0 THEN 0 ELSE sc[1]
      inner == SubSeq(sc, 3, 2 + k)
      outer == SubSeq(sc, 3 + k, Len(sc))
      in == Turned(inner)
      for == IF sc[2] = 0 THEN <<>> ELSE <<sc[2]>>
  IN (IF k = 0 THEN for ELSE <<in[1]>> \o for \o Tail(in)) \o Turned(outer)
       \o Order(st, IF Last(inner) # Object THEN Last(inner) ELSE Last(outer))
Read(st, rd, log) ==
  CASE rd.kind = 0 -> At(st, rd.start, rd, log)
    [] rd.kind = 1 -> Ask(st, Scoped(st, rd.scopes), rd, log)
    [] rd.kind = 2 -> Ask(st, Order(st, rd.start), rd, log)
    [] rd.kind = 3 -> Ask(st, Qualified(st, rd.start), rd, log)
------------------------------------------------------------------------------
(* Lists of names: here a class comes before the modules prepended to it *)
Raw(st, x, stop) ==
  LET RECURSIVE up(_)
      up(y) == IF y \in {0, stop} THEN <<>>
               ELSE <<y>> \o st.cl.c[y].pre \o st.cl.c[y].inc \o (IF st.cl.c[y].kind = "module" THEN <<>> ELSE up(st.cl.c[y].sup))
  IN up(x)
OwnNames(st, x) == SelectSeq([n \in 1..NCon |-> n], LAMBDA n : st.k[x][n].k # "none" /\ st.k[x][n].p = 0)
Names(st, x) ==
  LET list == Raw(st, x, IF x = Object THEN 0 ELSE Object)
      has(n) == SelectSeq(list, LAMBDA y : st.k[y][n].k # "none")
  IN SelectSeq([n \in 1..NCon |-> n], LAMBDA n : has(n) # <<>> /\ st.k[has(n)[1]][n].p = 0)
\* files 1 to 3 are f1.rb, f2 and f1; asked for are f1.rb, f2.so, f2, f1
Fits == << {1, 3}, {2}, {2}, {3} >>
Files(st, q) ==
  SelectSeq([j \in 1..10 * Len(st.k) + NCon |-> j],
            LAMBDA j : LET c == j \div 10 n == j % 10 IN
              c >= 1 /\ n \in 1..NCon /\ st.k[c][n].k = "auto" /\ st.k[c][n].v \in Fits[q])
------------------------------------------------------------------------------
(* Class variables *)
HasVar(st, c, n) == \E j \in 1..Len(st.v[c]) : st.v[c][j][1] = n
VarOf(st, c, n) == st.v[c][CHOOSE j \in 1..Len(st.v[c]) : st.v[c][j][1] = n][2]
WithVar(st, c, n, v) ==
  [st EXCEPT !.v[c] = IF HasVar(st, c, n) THEN [j \in 1..Len(@) |-> IF @[j][1] = n THEN <<n, v>> ELSE @[j]]
                      ELSE Append(@, <<n, v>>)]
WithoutVar(st, c, n) == [st EXCEPT !.v[c] = SelectSeq(@, LAMBDA p : p[1] # n)]
Owners(st, x, n) == SelectSeq(Raw(st, x, 0), LAMBDA y : HasVar(st, y, n))
Nearby(st, x, n) == LET o == Owners(st, x, n) IN IF o = <<>> THEN <<>> ELSE <<o[1], VarOf(st, o[1], n)>>
\* of two owners the farther one overtakes the nearer one: an error
GetVar(st, x, n) == IF Cardinality(Range(Owners(st, x, n))) > 1 THEN <<-1>> ELSE Nearby(st, x, n)
------------------------------------------------------------------------------
(* Steps *)
Reading(op) == [kind |-> op[4], start |-> op[2], name |-> op[3], plan |-> <<op[5], op[6], op[7]>>,
                place |-> op[8], value |-> op[9], scopes |-> SubSeq(op, 10, Len(op))]
Doing(st, op) ==
  LET c == op[2]
      n == op[3]
      e == st.k[c][n]
  IN CASE op[1] = "set" -> [st |-> Assigned(st, c, n, op[4]), r |-> <<0>>]
       [] op[1] = "auto" -> [st |-> Registered(st, c, n, op[4]), r |-> <<0>>]
       [] op[1] = "state" -> [st |-> InState(st, c, n, op[4]), r |-> <<0>>]
       [] op[1] = "unset" -> [st |-> Dropped(st, c, n),
                              r |-> IF e.k = "none" THEN <<0>> ELSE <<1, IF e.k = "val" THEN e.v ELSE 0>>]
       [] op[1] = "mark" -> [st |-> Marked(st, c, n, op[4]), r |-> <<0>>]
       [] op[1] = "read" -> LET x == Read(st, Reading(op), <<>>) IN [st |-> x.st, r |-> <<x.v>> \o x.log]
       [] op[1] = "defined" ->
            LET q == Where(st, Qualified(st, IF op[4] = 1 THEN Object ELSE c), n)
                found == IF op[4] = 0 THEN Where(st, Scoped(st, SubSeq(op, 5, Len(op))), n) # 0
                         ELSE q # 0 /\ st.k[q][n].p = 0
            IN [st |-> st, r |-> <<IF found THEN 1 ELSE 0>>]
       [] op[1] = "cvset" -> [st |-> WithVar(st, c, n, op[4]), r |-> <<0>>]
       [] op[1] = "cvunset" -> [st |-> WithoutVar(st, c, n),
                                r |-> IF HasVar(st, c, n) THEN <<1, VarOf(st, c, n)>> ELSE <<0>>]
Tables == {"set", "auto", "state", "unset", "mark", "read", "defined", "cvset", "cvunset"}
Act(st, op) ==
  IF op[1] \in Tables THEN Doing(st, op)
  ELSE LET x == Step(st.cl, op)
           new == Len(x.st.c) > Len(st.cl.c)
           copy == op[1] = "dup"
       IN [st |-> [cl |-> x.st,
                   k |-> IF new THEN Append(st.k, IF copy THEN st.k[op[2]] ELSE NoTable) ELSE st.k,
                   v |-> IF new THEN Append(st.v, IF copy THEN st.v[op[2]] ELSE NoVars) ELSE st.v],
           r |-> x.r]
=============================================================================
