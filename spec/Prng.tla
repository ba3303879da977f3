-------------------------------- MODULE Prng --------------------------------
(* The Mersenne Twister MT19937 and the draws made from it.  A word of 32 bits
   is <<hi, lo>>, two halves of H = 16 bits.                                 *)
EXTENDS Integers, Sequences, Bitwise, TLC
CONSTANT H
Differ(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
Common(a, b) == <<a[1] & b[1], a[2] & b[2]>>
Shr(a, n) ==
  IF n >= 16 THEN <<0, a[1] \div (2 ^ (n - 16))>>
  ELSE <<a[1] \div (2 ^ n), (a[2] \div (2 ^ n)) + ((a[1] % (2 ^ n)) * (2 ^ (16 - n)))>>
Shl(a, n) == <<((a[1] * (2 ^ n)) % 65536) + (a[2] \div (2 ^ (16 - n))), (a[2] * (2 ^ n)) % 65536>>
Plus(a, b) ==
  LET lo == a[2] + b[2]
  IN <<(a[1] + b[1] + (lo \div 65536)) % 65536, lo % 65536>>
Minus(a, n) == IF a[2] >= n THEN <<a[1], a[2] - n>> ELSE <<(a[1] + 65535) % 65536, a[2] + 65536 - n>>
(* the product of two halves, a word *)
Product(a, b) ==
  LET high == a * (b \div 256)
      low == a * (b % 256) + (high % 256) * 256
  IN <<(high \div 256) + (low \div 65536), low % 65536>>
Times(a, b) ==
  LET p == Product(a[2], b[2])
  IN <<(p[1] + Product(a[1], b[2])[2] + Product(a[2], b[1])[2]) % 65536, p[2]>>

(* ---- seeding: words of the state at 1..624, i of them drawn ---- *)
Fold(w) == Differ(w, Shr(w, 30))
RECURSIVE Grow(_, _)
Grow(mt, n) ==
  IF Len(mt) = n THEN mt
  ELSE Grow(Append(mt, Plus(Times(Fold(mt[Len(mt)]), <<27655, 35173>>), <<0, Len(mt)>>)), n)
BySeed(w) == [mt |-> Grow(<<w>>, 624), i |-> 624]
(* For a key of 2 to 624 words: the words from the second on are mixed with the
   one before and the key, then the second once more with the last; then all
   once more with their places, from the third on round to the second.      *)
WithKey(w, before, key, n) ==
  LET j == n % Len(key)
  IN Plus(Plus(Differ(w, Times(Fold(before), <<25, 26125>>)), key[j + 1]), <<0, j>>)
WithPlace(w, before, place) == Minus(Differ(w, Times(Fold(before), <<23896, 35685>>)), place)
RECURSIVE Mix(_, _, _)
Mix(old, new, key) ==
  IF Len(new) = 624 THEN new
  ELSE Mix(old, Append(new, WithKey(old[Len(new) + 1], new[Len(new)], key, Len(new) - 1)), key)
RECURSIVE Mix2(_, _)
Mix2(old, new) ==
  IF Len(new) = 624 THEN new
  ELSE Mix2(old, Append(new, WithPlace(old[Len(new) + 1], new[Len(new)], Len(new))))
Base == BySeed(<<299, 54954>>).mt
ByArray(key) ==
  LET one == TLCEval(Mix(Base, <<Base[1]>>, key))
      second == WithKey(one[2], one[624], key, 623)
      two == TLCEval(Mix2(one, <<one[1], second>>))
      last == WithPlace(second, two[624], 1)
  IN [mt |-> [two EXCEPT ![1] = <<32768, 0>>, ![2] = last], i |-> 624]
(* a key of one word is the seed itself *)
Seeded(key) == IF Len(key) = 1 THEN BySeed(key[1]) ELSE ByArray(key)

(* ---- drawing a word ---- *)
Twist(far, a, b) ==
  LET y == <<(a[1] & 32768) + (b[1] & 32767), b[2]>>
      z == Differ(far, Shr(y, 1))
  IN IF y[2] % 2 = 1 THEN Differ(z, <<39176, 45279>>) ELSE z
RECURSIVE Refill(_, _)
Refill(old, new) ==
  LET k == Len(new) + 1
      at(j) == IF j <= 624 THEN old[j] ELSE new[j - 624]
  IN IF k > 624 THEN new ELSE Refill(old, Append(new, Twist(at(k + 397), old[k], at(k + 1))))
Temper(w) ==
  LET a == Differ(w, Shr(w, 11))
      b == Differ(a, Common(Shl(a, 7), <<40236, 22144>>))
      c == Differ(b, Common(Shl(b, 15), <<61382, 0>>))
  IN Differ(c, Shr(c, 18))
Ready(s) == IF s.i < 624 THEN s ELSE [mt |-> TLCEval(Refill(s.mt, <<>>)), i |-> 0]
(* n words, and the state behind them *)
RECURSIVE Draws(_, _)
Draws(s, n) ==
  IF n = 0 THEN [w |-> <<>>, s |-> s]
  ELSE LET t == Ready(s)
           rest == Draws([t EXCEPT !.i = @ + 1], n - 1)
       IN [w |-> <<Temper(t.mt[t.i + 1])>> \o rest.w, s |-> rest.s]

(* ---- a number from 0 to a limit given by its words, the lowest first: one
   word for each place from the highest that is not 0 down, masked at that
   place; a number beyond the limit is given up as soon as it shows          *)
Half == 2 ^ H
RECURSIVE Mask(_)
Mask(x) == IF x = 0 THEN 0 ELSE 2 * Mask(x \div 2) + 1
MaskOf(w) == IF w[1] > 0 THEN <<Mask(w[1]), Half - 1>> ELSE <<0, Mask(w[2])>>
Beyond(a, b) == a[1] > b[1] \/ (a[1] = b[1] /\ a[2] > b[2])
RECURSIVE Top(_, _)
Top(limit, i) == IF i = 0 THEN 0 ELSE IF limit[i] # <<0, 0>> THEN i ELSE Top(limit, i - 1)
Need(limit) == Top(limit, Len(limit))
(* the words drawn, ws[1] for the highest place; decided by the first that
   differs from the limit                                                    *)
Tried(limit, ws) ==
  LET n == Need(limit)
      got == [j \in 1..n |-> IF j = n THEN Common(ws[1], MaskOf(limit[n])) ELSE ws[n + 1 - j]]
      differ == {j \in 1..n : got[j] # limit[j]}
      first == CHOOSE j \in differ : \A l \in differ : l <= j
  IN IF differ # {} /\ Beyond(got[first], limit[first])
     THEN [ok |-> FALSE, used |-> n + 1 - first, digits |-> <<>>]
     ELSE [ok |-> TRUE, used |-> n, digits |-> [j \in 1..Len(limit) |-> IF j <= n THEN got[j] ELSE <<0, 0>>]]
RECURSIVE Limited(_, _, _)
Limited(s, limit, cnt) ==
  LET n == Need(limit)
      t == TLCEval(Tried(limit, Draws(s, n).w))
      next == TLCEval(Draws(s, t.used).s)
  IN IF t.ok THEN [digits |-> t.digits, s |-> next, cnt |-> cnt + t.used]
     ELSE Limited(next, limit, cnt + t.used)

(* ---- floats, as <<a, b>> for (a * 2^26 + b) / 2^53 ---- *)
Int32(w) == w[1] * 65536 + w[2]
Real(w, v) == <<Int32(Shr(w, 5)), Int32(Shr(v, 6))>>
(* both ends included: the words as a number of 64 bits, times 2^53 + 1, over
   2^64                                                                      *)
RealClosed(w, v) ==
  LET carry == IF (v[2] % 2048) * 32 + w[1] >= 65536 THEN 1 ELSE 0
      (* the upper 53 bits: 27 of them, then 26 *)
      a == Int32(Shr(w, 5))
      b == (w[2] % 32) * 2097152 + Int32(Shr(v, 11)) + carry
  IN <<a + (b \div 67108864), b % 67108864>>
(* ---- bytes: four of each word, the lowest first ---- *)
Four(w) == <<w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256>>
RECURSIVE Flat(_)
Flat(ws) == IF ws = <<>> THEN <<>> ELSE Four(Head(ws)) \o Flat(Tail(ws))
=============================================================================
