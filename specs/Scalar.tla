------------------------------- MODULE Scalar -------------------------------
(***************************************************************************)
(* The primitive operators on the 14 numeric element types, written out on *)
(* unbounded numbers.  An integer is <<0, neg, mag>>: neg 0/1, mag a BigNat. *)
(* A float is <<cls, neg, mag, e>>: cls 0 finite, mag * 2^e as the format   *)
(* stores it (IEEE 754: correctly rounded), 1 infinite, 2 NaN.              *)
(* A type is [f, bits, sg].  Operators: 0 + 1 - 2 * 3 / 4 % 5 negation.    *)
(* Results: <<"v", value>>, <<"over", wrapped value>> (an overflow that    *)
(* checked builds report by a panic) or <<"panic">> (in every build).      *)
(***************************************************************************)
EXTENDS BigNat, TLC
LOCAL B == 4096

\* ---------------------------------------------------------------- division
RECURSIVE Digit(_, _, _, _)
\* the largest d in lo..hi with b * d <= r
Digit(r, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN IF Leq(Mul(b, OfInt(m)), r) THEN Digit(r, b, m, hi) ELSE Digit(r, b, lo, m - 1)
\* bounds of the quotient digit from the leading limbs
Least(m, n) == IF m < n THEN m ELSE n
Estimate(r, b) ==
  LET n == Len(b)
      rt == Limb(r, n + 1) * B + Limb(r, n)
      \* rt * B^(n-1) <= r < (rt + 1) * B^(n-1), the same for b
      lo == rt \div (b[n] + 1)
      hi == rt \div b[n]
  IN <<Least(lo, B - 1), Least(hi, B - 1)>>
RECURSIVE DivMod(_, _, _)
\* <<quotient, remainder>> of the limbs of a from the k-th upwards
DivMod(a, b, k) ==
  IF k > Len(a) THEN <<<<>>, <<>>>>
  ELSE LET hi == DivMod(a, b, k + 1)
           r == Norm(<<a[k]>> \o hi[2])
           d == IF Less(r, b) THEN 0
                ELSE IF IsSmall(r) /\ IsSmall(b) THEN ToInt(r) \div ToInt(b)
                ELSE LET est == Estimate(r, b) IN Digit(r, b, est[1], est[2])
       IN <<Norm(<<d>> \o hi[1]), IF d = 0 THEN r ELSE Sub(r, Mul(b, OfInt(d)))>>
Quo(a, b) == DivMod(a, b, 1)[1]
Mod(a, b) == DivMod(a, b, 1)[2]

\* ---------------------------------------------------------------- integers
Fin(neg, mag) == <<0, IF mag = <<>> THEN 0 ELSE neg, mag>>
Flip(n) == 1 - n
Xor(m, n) == IF m = n THEN 0 ELSE 1
Opp(v) == Fin(Flip(v[2]), v[3])
Plus(a, b) ==
  IF a[2] = b[2] THEN Fin(a[2], Add(a[3], b[3]))
  ELSE IF Less(a[3], b[3]) THEN Fin(b[2], Sub(b[3], a[3]))
  ELSE Fin(a[2], Sub(a[3], b[3]))
Times(a, b) == Fin(Xor(a[2], b[2]), Mul(a[3], b[3]))
\* (a constant: evaluated once)
Power == [n \in 0..128 |-> Pow2(n)]
Fits(t, v) ==
  IF v[2] = 1 THEN t.sg = 1 /\ Leq(v[3], Power[t.bits - 1])
  ELSE Less(v[3], Power[IF t.sg = 1 THEN t.bits - 1 ELSE t.bits])
Wrap(t, v) ==
  LET M == Power[t.bits]
      m == Mod(v[3], M)
      u == IF v[2] = 0 \/ m = <<>> THEN m ELSE Sub(M, m)     \* in 0 .. 2^bits - 1
  IN IF t.sg = 1 /\ Leq(Power[t.bits - 1], u) THEN Fin(1, Sub(M, u)) ELSE Fin(0, u)
Whole(t, v) == IF Fits(t, v) THEN <<"v", v>> ELSE <<"over", Wrap(t, v)>>
IntSem(t, op, a, b) ==
  CASE op = 0 -> Whole(t, Plus(a, b))
    [] op = 1 -> Whole(t, Plus(a, Opp(b)))
    [] op = 2 -> Whole(t, Times(a, b))
    [] op \in {3, 4} ->
         IF b[3] = <<>> THEN <<"panic">>
         ELSE LET q == Fin(Xor(a[2], b[2]), Quo(a[3], b[3]))
              IN IF ~Fits(t, q) THEN <<"panic">>
                 ELSE <<"v", IF op = 3 THEN q ELSE Fin(a[2], Mod(a[3], b[3]))>>
    [] OTHER -> Whole(t, Opp(a))

\* ------------------------------------------------------------------ floats
\* the format of t: <<P, least exponent, greatest exponent>>; 3: a toy (FloatMC)
Format(t) == CASE t.f = 1 -> <<24, -149, 104>> [] t.f = 2 -> <<53, -1074, 971>> [] OTHER -> <<3, -3, 1>>
NaN == <<2, 0, <<>>, 0>>
Inf(neg) == <<1, neg, <<>>, 0>>
Zero(t, neg) == <<0, neg, <<>>, Format(t)[2]>>
IsZero(v) == v[1] = 0 /\ v[3] = <<>>
RECURSIVE BitsOf(_)
BitsOf(n) == IF n = 0 THEN 0 ELSE 1 + BitsOf(n \div 2)
BitLen(a) == IF a = <<>> THEN 0 ELSE 12 * (Len(a) - 1) + BitsOf(a[Len(a)])
Shl(a, k) == IF k = 0 \/ a = <<>> THEN a
             ELSE LET m == IF k % 12 = 0 THEN a ELSE Norm(MulL(a, 2 ^ (k % 12), 1, 0))
                  IN IF k < 12 THEN m ELSE [i \in 1..(k \div 12) |-> 0] \o m
RECURSIVE ShrC(_, _, _, _)
\* the limbs of a from the k-th on, divided by d = 2^i (i < 12); u the last one
ShrC(a, d, k, u) == IF k > u THEN <<>>
                    ELSE <<a[k] \div d + (Limb(a, k + 1) % d) * (B \div d)>> \o ShrC(a, d, k + 1, u)
Shr(a, k) == Norm(ShrC(a, 2 ^ (k % 12), k \div 12 + 1, Len(a)))
\* a modulo 2^k
LowBits(a, k) == IF k \div 12 + 1 > Len(a) THEN a
                 ELSE Norm(SubSeq(a, 1, k \div 12) \o <<a[k \div 12 + 1] % 2 ^ (k % 12)>>)
One == <<1>>
\* the float nearest to (num / den) * 2^x, ties to the even one
Round(t, neg, num, den, x) ==
  IF num = <<>> THEN Zero(t, neg)
  ELSE LET f == Format(t)
           d == BitLen(num) - BitLen(den)
           \* 2^(l-1) <= num / den < 2^l
           l == IF d >= 0 THEN (IF Less(num, Shl(den, d)) THEN d ELSE d + 1)
                ELSE (IF Less(Shl(num, -d), den) THEN d ELSE d + 1)
           e0 == x + l - f[1]
           e == IF e0 < f[2] THEN f[2] ELSE e0
           n == IF x > e THEN Shl(num, x - e) ELSE num
           m == IF x < e THEN Shl(den, e - x) ELSE den
           qr == IF den # One THEN DivMod(n, m, 1) ELSE IF x < e THEN <<Shr(n, e - x), LowBits(n, e - x)>> ELSE <<n, <<>>>>
           twice == Shl(qr[2], 1)
           up == \/ Less(m, twice)
                 \/ twice = m /\ qr[1] # <<>> /\ qr[1][1] % 2 = 1
           q == IF up THEN Add(qr[1], <<1>>) ELSE qr[1]
           full == q = Pow2(f[1])
           q2 == IF full THEN Pow2(f[1] - 1) ELSE q
           e2 == IF full THEN e + 1 ELSE e
       IN IF e0 < f[2] - f[1] - 2 THEN Zero(t, neg)
          ELSE IF e2 > f[3] THEN Inf(neg)
          ELSE IF q2 = <<>> THEN Zero(t, neg)
          ELSE <<0, neg, q2, e2>>
FNeg(v) == IF v[1] = 2 THEN v ELSE <<v[1], Flip(v[2]), v[3], v[4]>>
Min(m, n) == IF m < n THEN m ELSE n
FPlus(t, a, b) ==
  IF a[1] = 2 \/ b[1] = 2 THEN NaN
  ELSE IF a[1] = 1 THEN (IF b[1] = 1 /\ a[2] # b[2] THEN NaN ELSE a)
  ELSE IF b[1] = 1 THEN b
  ELSE LET e == Min(a[4], b[4])
           m == Shl(a[3], a[4] - e)
           n == Shl(b[3], b[4] - e)
       IN IF a[2] = b[2] THEN Round(t, a[2], Add(m, n), One, e)
          ELSE IF m = n THEN Zero(t, 0)
          ELSE IF Less(m, n) THEN Round(t, b[2], Sub(n, m), One, e)
          ELSE Round(t, a[2], Sub(m, n), One, e)
FTimes(t, a, b) ==
  LET s == Xor(a[2], b[2])
  IN IF a[1] = 2 \/ b[1] = 2 THEN NaN
     ELSE IF a[1] = 1 \/ b[1] = 1 THEN (IF IsZero(a) \/ IsZero(b) THEN NaN ELSE Inf(s))
     ELSE Round(t, s, Mul(a[3], b[3]), One, a[4] + b[4])
FOver(t, a, b) ==
  LET s == Xor(a[2], b[2])
  IN IF a[1] = 2 \/ b[1] = 2 THEN NaN
     ELSE IF a[1] = 1 THEN (IF b[1] = 1 THEN NaN ELSE Inf(s))
     ELSE IF b[1] = 1 THEN Zero(t, s)
     ELSE IF IsZero(b) THEN (IF IsZero(a) THEN NaN ELSE Inf(s))
     ELSE Round(t, s, a[3], b[3], a[4] - b[4])
RECURSIVE Pow2Mod(_, _)
Pow2Mod(k, m) == IF k < 24 THEN Mod(Pow2(k), m)
                 ELSE LET h == Pow2Mod(k \div 2, m)
                      IN Mod(Mul(Mul(h, h), Pow2(k % 2)), m)
FMod(t, a, b) ==
  IF a[1] = 2 \/ b[1] = 2 \/ a[1] = 1 \/ IsZero(b) THEN NaN
  ELSE IF b[1] = 1 \/ IsZero(a) THEN a
  ELSE IF a[4] >= b[4] THEN Round(t, a[2], Mod(Mul(a[3], Pow2Mod(a[4] - b[4], b[3])), b[3]), One, b[4])
  ELSE IF b[4] - a[4] > 60 THEN a
  ELSE Round(t, a[2], Mod(a[3], Shl(b[3], b[4] - a[4])), One, a[4])
FloatSem(t, op, a, b) ==
  <<"v", CASE op = 0 -> FPlus(t, a, b)
           [] op = 1 -> FPlus(t, a, FNeg(b))
           [] op = 2 -> FTimes(t, a, b)
           [] op = 3 -> FOver(t, a, b)
           [] op = 4 -> FMod(t, a, b)
           [] OTHER -> FNeg(a)>>
Sem(t, op, a, b) == IF t.f = 0 THEN IntSem(t, op, a, b) ELSE FloatSem(t, op, a, b)

\* -------------------------------------------------------------------- forms
\* form: bit 1 set: the scalar is the left operand; 16, 17: assignment
ScalarLeft(form) == form < 16 /\ (form \div 2) % 2 = 1
Borrowed(form) == form < 16 /\ (form \div 4) % 2 = 1
Element(t, op, form, e, s) == IF op # 5 /\ ScalarLeft(form) THEN Sem(t, op, s, e) ELSE Sem(t, op, e, s)
=============================================================================
