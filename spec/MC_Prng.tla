------------------------------- MODULE MC_Prng -------------------------------
(* Kind = "known": the published outputs of MT19937.  Kind = "uniform": draws
   up to a limit, with words of 2 * H bits, for every limit of N words.      *)
EXTENDS Prng, FiniteSets
CONSTANTS Kind, N
VARIABLES limit, st, n
vars == <<limit, st, n>>
Words == (0..(Half - 1)) \X (0..(Half - 1))
None == [mt |-> <<>>, i |-> 0]
Init == limit = <<>> /\ st = None /\ n = -1
Next ==
  \/ Kind = "uniform" /\ n = -1 /\ limit' \in [1..N -> Words] /\ n' = 0 /\ st' = st
  \/ Kind = "known" /\ n = -1 /\ n' = 0 /\ limit' = limit /\ st' = BySeed(<<0, 5489>>)
  \/ Kind = "known" /\ n \in 0..9999 /\ n' = n + 1 /\ limit' = limit
     /\ st' = Draws(st, 1).s
Spec == Init /\ [][Next]_vars
First == (Kind = "known" /\ n = 0) =>
  /\ Draws(st, 1).w = <<<<53393, 47964>>>>
  /\ Draws(ByArray(<<<<0, 291>>, <<0, 564>>, <<0, 837>>, <<0, 1110>>>>), 4).w
       = <<<<16290, 13859>>, <<14586, 37727>>, <<7282, 56376>>, <<62671, 12127>>>>
Later == (Kind = "known" /\ n = 9999) => Draws(st, 1).w = <<<<62922, 3803>>>>

(* every value up to the limit comes from equally many draws, others from none *)
RECURSIVE Big(_, _)
Big(d, i) == IF i > Len(d) THEN 0 ELSE (d[i][1] * Half + d[i][2]) + (Half * Half) * Big(d, i + 1)
Uniform == (Kind = "uniform" /\ n = 0) =>
  LET k == Need(limit)
      all == [1..k -> Words]
      good == {ws \in all : Tried(limit, ws).ok}
      count(v) == Cardinality({ws \in good : Big(Tried(limit, ws).digits, 1) = v})
      each == count(0)
  IN /\ each > 0
     /\ \A v \in 0..Big(limit, 1) : count(v) = each
     /\ Cardinality(good) = each * (Big(limit, 1) + 1)
     (* what follows the words that decided a failure does not matter *)
     /\ \A ws \in all \ good : LET t == Tried(limit, ws) IN t.used \in 1..k
          /\ \A vs \in all : (\A j \in 1..t.used : vs[j] = ws[j]) => ~Tried(limit, vs).ok
=============================================================================
