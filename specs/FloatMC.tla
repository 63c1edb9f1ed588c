------------------------------ MODULE FloatMC -------------------------------
(***************************************************************************)
(* The float arithmetic of module Scalar, on a toy format (3 significant    *)
(* bits, exponents -3..1), against a definition by search: the exact        *)
(* rational result's nearest representable value, ties to the even          *)
(* significand, overflow from the middle beyond the greatest.  Every pair   *)
(* of values, every operator.  Variants: "recip" divides by multiplying     *)
(* with the rounded reciprocal, "trunc" rounds towards zero, "nozero"       *)
(* drops the sign of zero (all three rejected).                             *)
(***************************************************************************)
EXTENDS Scalar
CONSTANT Variant
T == [f |-> 3, bits |-> 6, sg |-> 1]
\* <<m, e>> with value m * 2^e; scaled by 2^3 to an integer
Pairs == {<<m, e>> \in (0..7) \X (-3..1) : m >= 4 \/ e = -3}
Mag(p) == p[1] * 2 ^ (p[2] + 3)
Finite == {<<0, s, OfInt(p[1]), p[2]>> : s \in {0, 1}, p \in Pairs}
Floats == Finite \cup {Inf(0), Inf(1), NaN}
VARIABLES a, b, op
vars == <<a, b, op>>
Init == a \in Floats /\ b \in Floats /\ op \in 0..4
Next == UNCHANGED vars

V(x) == (IF x[2] = 1 THEN -1 ELSE 1) * ToInt(x[3]) * 2 ^ (x[4] + 3)   \* times 8
Abs(n) == IF n < 0 THEN -n ELSE n
\* num / den in eighths (num, den >= 0): the nearest value, ties to even; 8 * 16 is the first value beyond
Beyond == <<4, 2>>
Nearest(num, den) ==
  LET dist(p) == Abs(num - Mag(p) * den)
      C == Pairs \cup {Beyond}
      best == {p \in C : \A q \in C : dist(p) <= dist(q)}
      p == IF \E q \in best : q[1] % 2 = 0 THEN CHOOSE q \in best : q[1] % 2 = 0 ELSE CHOOSE q \in best : TRUE
  IN IF num >= 15 * 8 * den THEN Beyond ELSE p
Val(s, num, den) ==
  LET p == Nearest(num, den)
  IN IF p = Beyond THEN Inf(s) ELSE <<0, s, OfInt(p[1]), p[2]>>
Fi(x) == x[1] = 0
Search ==
  LET s == Xor(a[2], b[2])
      sum == IF op = 0 THEN V(a) + V(b) ELSE V(a) - V(b)
      bs == IF op = 0 THEN b[2] ELSE Flip(b[2])
  IN CASE op \in {0, 1} -> IF sum = 0 THEN Zero(T, IF a[2] = 1 /\ bs = 1 THEN 1 ELSE 0)
                           ELSE Val(IF sum < 0 THEN 1 ELSE 0, Abs(sum), 1)
       [] op = 2 -> IF V(a) * V(b) = 0 THEN Zero(T, s) ELSE Val(s, Abs(V(a) * V(b)), 8)
       [] op = 3 -> IF V(a) = 0 THEN Zero(T, s) ELSE Val(s, Abs(V(a)) * 8, Abs(V(b)))
       [] op = 4 -> LET r == Abs(V(a)) % Abs(V(b)) IN IF r = 0 THEN Zero(T, a[2]) ELSE Val(a[2], r, 1)
Result ==
  CASE Variant = "recip" /\ op = 3 /\ Fi(a) /\ Fi(b) /\ ~IsZero(b) -> FTimes(T, a, FOver(T, <<0, 0, <<4>>, -2>>, b))
    [] Variant = "trunc" /\ op = 3 /\ Fi(a) /\ Fi(b) /\ ~IsZero(b) ->
         LET r == FOver(T, a, b) IN IF Fi(r) /\ Abs(V(r)) * Abs(V(b)) > Abs(V(a)) * 8 THEN <<0, r[2], Sub(r[3], <<1>>), r[4]>> ELSE r
    [] Variant = "nozero" -> LET r == FloatSem(T, op, a, b)[2] IN IF IsZero(r) THEN Zero(T, 0) ELSE r
    [] OTHER -> FloatSem(T, op, a, b)[2]
Agrees ==
  IF Fi(a) /\ Fi(b) /\ (op \in 0..2 \/ ~IsZero(b)) THEN Result = Search
  ELSE \* the special cases of the standard
    LET r == Result
        s == Xor(a[2], b[2])
    IN CASE a = NaN \/ b = NaN -> r = NaN
         [] op = 0 -> r = IF ~Fi(a) /\ ~Fi(b) /\ a # b THEN NaN ELSE IF Fi(a) THEN b ELSE a
         [] op = 1 -> r = IF ~Fi(a) /\ ~Fi(b) /\ a = b THEN NaN ELSE IF Fi(a) THEN FNeg(b) ELSE a
         [] op = 2 -> r = IF IsZero(a) \/ IsZero(b) THEN NaN ELSE Inf(s)
         [] op = 3 -> r = IF (~Fi(a) /\ ~Fi(b)) \/ (IsZero(a) /\ IsZero(b)) THEN NaN ELSE IF Fi(a) /\ ~Fi(b) THEN Zero(T, s) ELSE Inf(s)
         [] op = 4 -> r = IF ~Fi(a) \/ IsZero(b) THEN NaN ELSE a
=============================================================================
