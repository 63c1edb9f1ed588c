------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers beyond TLC's 32-bit integers: little-endian sequences   *)
(* of base-4096 limbs without leading zeros (zero is the empty sequence).  *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL B == 4096

RECURSIVE Norm(_)
Norm(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN Norm(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE OfInt(_)
OfInt(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o OfInt(n \div B)
\* only for numbers below 2^31
RECURSIVE ToInt(_)
ToInt(s) == IF s = <<>> THEN 0 ELSE s[1] + B * ToInt(Tail(s))
IsSmall(s) == Len(s) <= 2
Limb(s, k) == IF k <= Len(s) THEN s[k] ELSE 0
LOCAL MaxLen(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)

RECURSIVE AddC(_, _, _, _)
AddC(a, b, k, c) ==
  IF k > MaxLen(a, b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == Limb(a, k) + Limb(b, k) + c IN <<t % B>> \o AddC(a, b, k + 1, t \div B)
Add(a, b) == Norm(AddC(a, b, 1, 0))

RECURSIVE SubC(_, _, _, _)
SubC(a, b, k, c) ==
  IF k > Len(a) THEN <<>>
  ELSE LET t == Limb(a, k) - Limb(b, k) - c
       IN <<t % B>> \o SubC(a, b, k + 1, IF t < 0 THEN 1 ELSE 0)
\* a - b, for b <= a
Sub(a, b) == Norm(SubC(a, b, 1, 0))

RECURSIVE MulL(_, _, _, _)
MulL(a, d, k, c) ==
  IF k > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == a[k] * d + c IN <<t % B>> \o MulL(a, d, k + 1, t \div B)
RECURSIVE MulC(_, _)
MulC(a, b) == IF b = <<>> THEN <<>>
              ELSE Add(Norm(MulL(a, b[1], 1, 0)),
                       LET r == MulC(a, Tail(b)) IN IF r = <<>> THEN <<>> ELSE <<0>> \o r)
Mul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE Norm(MulC(a, b))

RECURSIVE LessC(_, _, _)
LessC(a, b, k) == IF k = 0 THEN FALSE
                  ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE LessC(a, b, k - 1)
Less(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LessC(a, b, Len(a))
Leq(a, b) == a = b \/ Less(a, b)

RECURSIVE Pow2(_)
Pow2(n) == IF n < 12 THEN <<2 ^ n>> ELSE <<0>> \o Pow2(n - 12)
USizeMax == Sub(Pow2(64), <<1>>)
ISizeMax == Sub(Pow2(63), <<1>>)
=============================================================================
