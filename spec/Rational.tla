------------------------------ MODULE Rational ------------------------------
(* Rational numbers as <<n, d>>: d > 0 and no common factor.                 *)
EXTENDS Integers, Sequences
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, Abs(a) % Abs(b))
Norm(n, d) ==
  LET g == Gcd(n, d)
      s == IF d < 0 THEN -1 ELSE 1
      (* both divisions are exact *)
      q(x) == IF x < 0 THEN -((-x) \div g) ELSE x \div g
  IN <<q(s * n), q(s * d)>>
Neg(x) == <<-x[1], x[2]>>
Add(x, y) == Norm(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
Sub(x, y) == Add(x, Neg(y))
Mul(x, y) == Norm(x[1] * y[1], x[2] * y[2])
Inv(x) == Norm(x[2], x[1])
Less(x, y) == x[1] * y[2] < y[1] * x[2]
Cmp(x, y) == IF Less(x, y) THEN -1 ELSE IF Less(y, x) THEN 1 ELSE 0

(* ---- to an integer ---- *)
FloorI(x) == x[1] \div x[2]
CeilI(x) == -((-x[1]) \div x[2])
TruncI(x) == IF x[1] < 0 THEN CeilI(x) ELSE FloorI(x)
(* the nearest integer; the one between two is given away from zero ("up"),
   toward zero ("down") or to the even one                                   *)
RoundI(x, half) ==
  LET f == FloorI(x)
      rest == 2 * (x[1] - f * x[2])
      away == IF x[1] < 0 THEN f ELSE f + 1
      near == IF x[1] < 0 THEN f + 1 ELSE f
  IN IF rest < x[2] THEN f
     ELSE IF rest > x[2] THEN f + 1
     ELSE CASE half = "up" -> away
            [] half = "down" -> near
            [] half = "even" -> IF f % 2 = 0 THEN f ELSE f + 1

(* ---- to a number of digits: a rational for k > 0, else an integer <<i>> -- *)
RECURSIVE Ten(_)
Ten(k) == IF k = 0 THEN 1 ELSE 10 * Ten(k - 1)
Scaled(x, k) == IF k >= 0 THEN Norm(x[1] * Ten(k), x[2]) ELSE Norm(x[1], x[2] * Ten(-k))
Unscaled(i, k) == IF k > 0 THEN Norm(i, Ten(k)) ELSE <<i * Ten(-k)>>
Digits(op, half, x, k) ==
  LET y == Scaled(x, k)
  IN Unscaled(CASE op = "floor" -> FloorI(y)
                [] op = "ceil" -> CeilI(y)
                [] op = "truncate" -> TruncI(y)
                [] op = "round" -> RoundI(y, half), k)

(* ---- the simplest rational within e of x ---- *)
Within(lo, hi, q) == CeilI(<<lo[1] * q, lo[2]>>) <= FloorI(<<hi[1] * q, hi[2]>>)
RECURSIVE Smallest(_, _, _)
Smallest(lo, hi, q) == IF Within(lo, hi, q) THEN <<CeilI(<<lo[1] * q, lo[2]>>), q>> ELSE Smallest(lo, hi, q + 1)
Simplest(x, e) ==
  LET a == <<Abs(x[1]), x[2]>>
      lo == Sub(a, e)
  IN IF lo[1] <= 0 THEN <<0, 1>>
     ELSE LET s == Smallest(lo, Add(a, e), 1) IN IF x[1] < 0 THEN Neg(s) ELSE s

(* ---- m * 2^e: the numerator, and the power of two that is the denominator - *)
RECURSIVE Two(_, _)
Two(m, e) ==
  CASE m = 0 -> <<0, 0>>
    [] e > 0 -> Two(2 * m, e - 1)
    [] e < 0 /\ m % 2 = 0 -> Two(m \div 2, e + 1)
    [] OTHER -> <<m, -e>>
=============================================================================
