----------------------------- MODULE MC_Rational -----------------------------
(* What the operators of Rational mean, for every small x and y.             *)
EXTENDS Rational, FiniteSets
CONSTANTS Kind, N, D, M
VARIABLES x, y, k
vars == <<x, y, k>>
Nums(n, d) == {Norm(a, b) : a \in -n..n, b \in 1..d}
Init == x = <<0, 1>> /\ y = <<0, 1>> /\ k = 9
Next ==
  /\ k = 9
  /\ x' \in Nums(N, D)
  /\ IF Kind = "round" THEN y' = y /\ k' \in -2..2 ELSE y' \in Nums(M, D) /\ k' = 0
Spec == Init /\ [][Next]_vars
On(kind) == Kind = kind /\ k # 9

LessEq(a, b) == ~Less(b, a)
Lowest(a) == a[2] > 0 /\ Gcd(a[1], a[2]) = 1
(* ---- arithmetic ---- *)
Normal == On("field") => Lowest(x) /\ Lowest(Add(x, y)) /\ Lowest(Sub(x, y)) /\ Lowest(Mul(x, y))
Field == On("field") =>
  /\ Add(x, y) = Add(y, x) /\ Mul(x, y) = Mul(y, x)
  /\ Sub(Add(x, y), y) = x
  /\ Mul(x, Add(y, <<1, 1>>)) = Add(Mul(x, y), x)
  /\ (y[1] # 0 => Mul(Mul(x, Inv(y)), y) = x)
Order == On("field") =>
  /\ Cmp(x, y) = -Cmp(y, x)
  /\ (Cmp(x, y) = 0) = (x = y)
  /\ Less(x, y) = (Sub(x, y)[1] < 0)

(* ---- rounding ---- *)
Value(v) == IF Len(v) = 1 THEN <<v[1], 1>> ELSE v
Unit == IF k >= 0 THEN <<1, Ten(k)>> ELSE <<Ten(-k), 1>>
Of(op, half, z) == Value(Digits(op, half, z, k))
Modes == {"up", "down", "even"}
Multiple(v) == Mul(v, Inv(Unit))[2] = 1
Sides == On("round") =>
  LET f == Of("floor", "", x)
      c == Of("ceil", "", x)
  IN /\ LessEq(f, x) /\ LessEq(x, c) /\ Multiple(f) /\ Multiple(c)
     /\ Sub(c, f) = (IF Multiple(x) THEN <<0, 1>> ELSE Unit)
     /\ Of("truncate", "", x) = (IF x[1] < 0 THEN c ELSE f)
Nearest == On("round") =>
  \A h \in Modes :
    LET r == Of("round", h, x)
        off(v) == LET s == Sub(v, x) IN <<Abs(s[1]), s[2]>>
        f == Of("floor", "", x)
        c == Of("ceil", "", x)
    IN /\ r \in {f, c}
       /\ LessEq(off(r), off(f)) /\ LessEq(off(r), off(c))
       /\ Of("round", h, Neg(x)) = Neg(r)
       /\ (off(f) = off(c) /\ f # c) =>
            CASE h = "up" -> Less(<<Abs(x[1]), x[2]>>, <<Abs(r[1]), r[2]>>)
              [] h = "down" -> Less(<<Abs(r[1]), r[2]>>, <<Abs(x[1]), x[2]>>)
              [] h = "even" -> Mul(r, Inv(Unit))[1] % 2 = 0
Kinds == On("round") => \A op \in {"floor", "ceil", "truncate"} : Len(Digits(op, "", x, k)) = IF k > 0 THEN 2 ELSE 1

(* ---- the simplest within a tolerance: built from the continued fractions of
   the two ends, and compared with every other rational in between           *)
RECURSIVE Chain(_, _)
Chain(lo, hi) ==
  LET c == CeilI(lo)
  IN IF LessEq(<<c, 1>>, hi) THEN <<c, 1>>
     ELSE LET f == <<FloorI(lo), 1>>
          IN Add(f, Inv(Chain(Inv(Sub(hi, f)), Inv(Sub(lo, f)))))
Tol == <<Abs(y[1]), y[2]>>
Simple == On("simple") =>
  LET s == Simplest(x, Tol)
      a == <<Abs(x[1]), x[2]>>
      lo == Sub(a, Tol)
      hi == Add(a, Tol)
      t == <<Abs(s[1]), s[2]>>
  IN /\ Simplest(Neg(x), Tol) = Neg(s)
     /\ LessEq(lo, t) /\ LessEq(t, hi)
     /\ (lo[1] > 0 => t = Chain(lo, hi) /\ t[2] <= x[2])
     /\ (Tol[1] = 0 => s = x)

(* ---- m * 2^e ---- *)
RECURSIVE Pow(_)
Pow(e) == IF e = 0 THEN 1 ELSE 2 * Pow(e - 1)
Power == (On("simple") /\ x[2] = 1 /\ y[2] = 1) =>
  LET v == Two(x[1], y[1])
  IN Norm(v[1], Pow(v[2])) = (IF y[1] < 0 THEN Norm(x[1], Pow(-y[1])) ELSE <<x[1] * Pow(y[1]), 1>>)
     /\ Lowest(<<v[1], Pow(v[2])>>)
=============================================================================
