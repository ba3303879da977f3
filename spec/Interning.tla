----------------------------- MODULE Interning -----------------------------
(* Names and identifiers.  A name is <<0, UTF-8 bytes...>> or <<1 + encoding,    *)
(* bytes...>>.  ids: the pairs <<name, identifier>> seen so far.  The answers   *)
(* may come from any thread in any order.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Fresh == [id |-> <<>>, name |-> <<>>]
(* learn that n is called by k: only if that keeps the relation one-to-one     *)
Learn(m, k, n) ==
  LET a == k \in DOMAIN m.id
      b == n \in DOMAIN m.name
  IN IF n < 1 \/ k[1] < 0 THEN {}
     ELSE IF a /\ b THEN (IF m.id[k] = n /\ m.name[n] = k THEN {m} ELSE {})
     ELSE IF a \/ b THEN {}
     ELSE {[id |-> (k :> n) @@ m.id, name |-> (n :> k) @@ m.name]}
Text(k) == SubSeq(k, 2, Len(k))
RECURSIVE ByteCmp(_, _)
ByteCmp(p, q) ==
  IF p = <<>> THEN (IF q = <<>> THEN 0 ELSE -1)
  ELSE IF q = <<>> THEN 1
  ELSE IF p[1] < q[1] THEN -1 ELSE IF p[1] > q[1] THEN 1 ELSE ByteCmp(Tail(p), Tail(q))
(* + - * / | & ^ % ** << >>  -@ +@ ~ !  == != < <= > >= === *)
Operators == << <<43>>, <<45>>, <<42>>, <<47>>, <<124>>, <<38>>, <<94>>, <<37>>, <<42, 42>>, <<60, 60>>, <<62, 62>>,
  <<45, 64>>, <<43, 64>>, <<126>>, <<33>>, <<61, 61>>, <<33, 61>>, <<60>>, <<60, 61>>, <<62>>, <<62, 61>>, <<61, 61, 61>> >>
(* $? $< $FILENAME $/ $-0 $\ $, $; $. $stdout $stderr $VERBOSE $-v $-w $0 $PROGRAM_NAME *)
Specials == {<<36, 63>>, <<36, 60>>, <<36, 70, 73, 76, 69, 78, 65, 77, 69>>, <<36, 47>>, <<36, 45, 48>>, <<36, 92>>, <<36, 44>>, <<36, 59>>,
  <<36, 46>>, <<36, 115, 116, 100, 111, 117, 116>>, <<36, 115, 116, 100, 101, 114, 114>>, <<36, 86, 69, 82, 66, 79, 83, 69>>, <<36, 45, 118>>,
  <<36, 45, 119>>, <<36, 48>>, <<36, 80, 82, 79, 71, 82, 65, 77, 95, 78, 65, 77, 69>>}
Plain(m, n) == n \in DOMAIN m.name /\ m.name[n][1] = 0
Step(m, op, r) ==
  LET x == op[2]
      y == r[2]
  IN IF r[1] /= "ok" THEN {} ELSE
  CASE op[1] \in {"intern", "internS"} -> Learn(m, x, y[1])
    [] op[1] = "name" -> Learn(m, y, x[1])
    [] op[1] = "text" -> IF Plain(m, x[1]) => y = Text(m.name[x[1]]) THEN {m} ELSE {}
    [] op[1] = "compare" -> IF {x[1], x[2]} \subseteq DOMAIN m.name => y = <<ByteCmp(Text(m.name[x[1]]), Text(m.name[x[2]]))>> THEN {m} ELSE {}
    [] op[1] = "ivar" -> IF Plain(m, x[1]) THEN Learn(m, <<0, 64>> \o Text(m.name[x[1]]), y[1]) ELSE {m}
    [] op[1] = "assign" -> IF Plain(m, x[1]) THEN Learn(m, m.name[x[1]] \o <<61>>, y[1]) ELSE {m}
    [] op[1] = "op" -> Learn(m, <<0>> \o Operators[x[1]], y[1])
    [] op[1] = "special" ->
         IF x[1] \notin DOMAIN m.name THEN {m}
         ELSE LET k == m.name[x[1]] IN
              IF k[1] = 0 /\ Text(k) \in Specials THEN (IF y = <<1>> \o Text(k) THEN {m} ELSE {})
              ELSE IF y = <<0>> THEN {m} ELSE {}
    (* the list of all identifiers: all known ones, none twice *)
    [] op[1] = "count" -> IF DOMAIN m.name \subseteq {y[k] : k \in 1..Len(y)} /\ Cardinality({y[k] : k \in 1..Len(y)}) = Len(y) THEN {m} ELSE {}
==============================================================================
