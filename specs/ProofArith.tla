------------------------------- MODULE ProofArith -------------------------------
(***************************************************************************)
(* What TLC checks for a small word or for small extents, proved for all    *)
(* of them with TLAPS: the arithmetic on which the algorithms rest.         *)
(***************************************************************************)
EXTENDS Integers, TLAPS

Pos == Nat \ {0}

---------------------------------------------------------------------------
(* Division with remainder. *)
LEMMA MulGe == ASSUME NEW a \in Int, NEW d \in Int, NEW n \in Nat, a >= d
               PROVE  a * n >= d * n
<1>1. (a - d) * n >= 0 BY a - d \in Nat
<1>2. (a - d) * n = a * n - d * n OBVIOUS
<1> QED BY <1>1, <1>2

LEMMA DivExists ==
  ASSUME NEW n \in Pos, NEW x \in Int
  PROVE  /\ x % n \in 0..(n - 1)
         /\ x \div n \in Int
         /\ x = (x \div n) * n + (x % n)
  BY DEF Pos

LEMMA DivUnique ==
  ASSUME NEW n \in Pos, NEW q \in Int, NEW r \in 0..(n - 1)
  PROVE  (q * n + r) % n = r /\ (q * n + r) \div n = q
<1> DEFINE x == q * n + r
           p == x \div n
           s == x % n
<1>1. x \in Int /\ p \in Int /\ s \in 0..(n - 1) /\ x = p * n + s
  BY DivExists DEF Pos
<1>2. q <= p
  <2> SUFFICES ASSUME q >= p + 1 PROVE FALSE BY <1>1
  <2>1. q * n >= (p + 1) * n BY MulGe, <1>1, p + 1 \in Int DEF Pos
  <2>2. (p + 1) * n = p * n + n BY <1>1 DEF Pos
  <2> QED BY <2>1, <2>2, <1>1 DEF Pos
<1>3. p <= q
  <2> SUFFICES ASSUME p >= q + 1 PROVE FALSE BY <1>1
  <2>1. p * n >= (q + 1) * n BY MulGe, <1>1, q + 1 \in Int DEF Pos
  <2>2. (q + 1) * n = q * n + n BY <1>1 DEF Pos
  <2> QED BY <2>1, <2>2, <1>1 DEF Pos
<1>4. p = q BY <1>1, <1>2, <1>3
<1>5. s = r
  <2> DEFINE w == q * n
  <2>1. w \in Int BY DEF Pos
  <2>2. x = w + r OBVIOUS
  <2>3. x = w + s BY <1>1, <1>4
  <2>4. r \in Int /\ s \in Int BY <1>1 DEF Pos
  <2> HIDE DEF w, x, s
  <2> QED BY <2>1, <2>2, <2>3, <2>4
<1> QED BY <1>4, <1>5

---------------------------------------------------------------------------
(* C04, C06: a position (ma, mi) of a matrix of A vectors of B elements. *)
Flat(ma, mi, B) == ma * B + mi

THEOREM FlatInBounds ==
  ASSUME NEW A \in Nat, NEW B \in Nat, NEW ma \in 0..(A - 1), NEW mi \in 0..(B - 1)
  PROVE  Flat(ma, mi, B) \in 0..(A * B - 1)
<1>1. (A - 1) * B >= ma * B BY MulGe, A - 1 \in Int, A - 1 >= ma
<1>2. (A - 1) * B = A * B - B OBVIOUS
<1>3. ma * B >= 0 * B BY MulGe
<1> QED BY <1>1, <1>2, <1>3 DEF Flat

THEOREM FlatSplit ==
  ASSUME NEW B \in Pos, NEW ma \in Nat, NEW mi \in 0..(B - 1)
  PROVE  Flat(ma, mi, B) \div B = ma /\ Flat(ma, mi, B) % B = mi
  BY DivUnique DEF Flat

THEOREM FlatInjective ==
  ASSUME NEW B \in Nat, NEW a \in Nat, NEW c \in Nat, NEW b \in 0..(B - 1), NEW d \in 0..(B - 1),
         Flat(a, b, B) = Flat(c, d, B)
  PROVE  a = c /\ b = d
<1>1. B \in Pos BY DEF Pos
<1> QED BY <1>1, FlatSplit

THEOREM FlatOnto ==
  ASSUME NEW A \in Nat, NEW B \in Nat, NEW k \in 0..(A * B - 1)
  PROVE  /\ B \in Pos
         /\ k \div B \in 0..(A - 1)
         /\ k % B \in 0..(B - 1)
         /\ Flat(k \div B, k % B, B) = k
<1>1. B \in Pos
  <2>1. A * 0 = 0 OBVIOUS
  <2> QED BY <2>1 DEF Pos
<1> DEFINE p == k \div B
<1>2. p \in Int /\ k % B \in 0..(B - 1) /\ k = p * B + (k % B) BY <1>1, DivExists
<1>3. p >= 0
  <2> SUFFICES ASSUME -1 >= p PROVE FALSE BY <1>2
  <2>1. (-1) * B >= p * B BY MulGe, <1>2
  <2>2. (-1) * B = -B OBVIOUS
  <2> QED BY <2>1, <2>2, <1>2
<1>4. p <= A - 1
  <2> SUFFICES ASSUME p >= A PROVE FALSE BY <1>2
  <2>1. p * B >= A * B BY MulGe, <1>2
  <2> QED BY <2>1, <1>2
<1> QED BY <1>1, <1>2, <1>3, <1>4 DEF Flat

---------------------------------------------------------------------------
(* C05: the permutation of the in-place transposition maps the buffer of A   *)
(* vectors of B elements to that of B vectors of A elements; the one with     *)
(* exchanged extents undoes it, so it is a bijection and transposing twice    *)
(* is the identity.                                                           *)
Target(p, A, B) == Flat(p % B, p \div B, A)

THEOREM TargetInverse ==
  ASSUME NEW A \in Nat, NEW B \in Nat, NEW p \in 0..(A * B - 1)
  PROVE  /\ Target(p, A, B) \in 0..(B * A - 1)
         /\ Target(Target(p, A, B), B, A) = p
<1>1. /\ p \div B \in 0..(A - 1) /\ p % B \in 0..(B - 1)
      /\ Flat(p \div B, p % B, B) = p
  BY FlatOnto
<1>2. A \in Pos BY <1>1 DEF Pos
<1>3. Target(p, A, B) \in 0..(B * A - 1) BY <1>1, FlatInBounds DEF Target
<1>4. /\ Target(p, A, B) \div A = p % B
      /\ Target(p, A, B) % A = p \div B
  BY <1>1, <1>2, FlatSplit DEF Target
<1>5. Target(Target(p, A, B), B, A) = Flat(p \div B, p % B, B) BY <1>4 DEF Target
<1> QED BY <1>1, <1>3, <1>5

THEOREM TargetInjective ==
  ASSUME NEW A \in Nat, NEW B \in Nat, NEW p \in 0..(A * B - 1), NEW r \in 0..(A * B - 1),
         Target(p, A, B) = Target(r, A, B)
  PROVE  p = r
BY TargetInverse

---------------------------------------------------------------------------
(* C13: the committed formula for wrapping indices, for any index and extent. *)
Abs(i) == IF i < 0 THEN -i ELSE i
Wrapped(i, n) == IF i < 0 THEN (n - (Abs(i) % n)) % n ELSE i % n

THEOREM WrappedIsRemainder ==
  ASSUME NEW i \in Int, NEW n \in Pos
  PROVE  Wrapped(i, n) = i % n
<1>1. CASE i >= 0 BY <1>1 DEF Wrapped
<1>2. CASE i < 0
  <2> DEFINE a == -i
             q == a \div n
             r == a % n
  <2>1. a \in Int /\ q \in Int /\ r \in 0..(n - 1) /\ a = q * n + r BY <1>2, DivExists
  <2>2. CASE r = 0
    <3>1. Wrapped(i, n) = n % n BY <1>2, <2>2 DEF Wrapped, Abs, Pos
    <3>2. n % n = 0
      <4>1. n = 1 * n + 0 BY DEF Pos
      <4>2. 0 \in 0..(n - 1) BY DEF Pos
      <4> QED BY <4>1, <4>2, DivUnique
    <3>3. i = (-q) * n + 0 BY <2>1, <2>2 DEF Pos
    <3>4. i % n = 0
      <4>1. 0 \in 0..(n - 1) /\ -q \in Int BY <2>1 DEF Pos
      <4> QED BY <3>3, <4>1, DivUnique
    <3> QED BY <3>1, <3>2, <3>4
  <2>3. CASE r # 0
    <3>1. n - r \in 0..(n - 1) BY <2>1, <2>3 DEF Pos
    <3>2. Wrapped(i, n) = (n - r) % n BY <1>2 DEF Wrapped, Abs
    <3>3. (n - r) = 0 * n + (n - r) BY <2>1 DEF Pos
    <3>4. (n - r) % n = n - r BY <3>1, <3>3, DivUnique
    <3>5. i = (-q - 1) * n + (n - r)
      <4>1. (-q - 1) * n = -(q * n) - n BY <2>1 DEF Pos
      <4>2. q * n \in Int /\ n \in Int BY <2>1 DEF Pos
      <4>3. i = -(q * n + r) BY <2>1
      <4>4. -(q * n + r) = (-(q * n) - n) + (n - r) BY <4>2, <2>1
      <4> HIDE DEF q, r, a
      <4> QED BY <4>1, <4>3, <4>4
    <3>6. i % n = n - r
      <4>1. -q - 1 \in Int BY <2>1
      <4> QED BY <3>1, <3>5, <4>1, DivUnique
    <3> QED BY <3>2, <3>4, <3>6
  <2> QED BY <2>1, <2>2, <2>3
<1> QED BY <1>1, <1>2

(* ... and it stays inside the unsigned word whenever index and extent are words *)
THEOREM WrappedFits ==
  ASSUME NEW i \in Int, NEW n \in Pos
  PROVE  /\ Abs(i) % n \in 0..(n - 1)
         /\ n - (Abs(i) % n) \in 1..n
         /\ Wrapped(i, n) \in 0..(n - 1)
<1>1. Abs(i) \in Int BY DEF Abs
<1>2. Abs(i) % n \in 0..(n - 1) BY <1>1, DivExists
<1>3. Wrapped(i, n) \in 0..(n - 1) BY WrappedIsRemainder, DivExists
<1> QED BY <1>2, <1>3 DEF Pos

---------------------------------------------------------------------------
(* C08: a product does not fit the word exactly when the division test says so. *)
THEOREM CheckedMul ==
  ASSUME NEW M \in Nat, NEW r \in Pos, NEW c \in Nat
  PROVE  r * c <= M <=> c <= M \div r
<1> DEFINE q == M \div r
           s == M % r
<1>1. q \in Int /\ s \in 0..(r - 1) /\ M = q * r + s BY DivExists
<1>2. ASSUME c <= q PROVE r * c <= M
  <2>1. q * r >= c * r BY <1>1, <1>2, MulGe DEF Pos
  <2>2. c * r = r * c BY DEF Pos
  <2> QED BY <1>1, <2>1, <2>2 DEF Pos
<1>3. ASSUME ~(c <= q) PROVE ~(r * c <= M)
  <2>1. c >= q + 1 BY <1>1, <1>3
  <2>2. c * r >= (q + 1) * r BY <2>1, <1>1, MulGe DEF Pos
  <2>3. (q + 1) * r = q * r + r BY <1>1 DEF Pos
  <2>4. c * r = r * c BY DEF Pos
  <2> QED BY <1>1, <2>2, <2>3, <2>4 DEF Pos
<1> QED BY <1>2, <1>3
=============================================================================
