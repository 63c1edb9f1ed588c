------------------------------ MODULE ScalarMC -------------------------------
(***************************************************************************)
(* The design of the scalar operators: a matrix is its element sequence,   *)
(* traversed once; at each element the body of the form in question is     *)
(* applied.  Explored for every small word, operator, side, and pair of    *)
(* values.  Variants: the body of one left form swapped ("swap"), the      *)
(* remainder of the Euclidean division ("euclid"), division rounded down   *)
(* ("floor"), an element visited twice ("twice").                          *)
(* It also compares the arithmetic of module Scalar with TLC's own.        *)
(***************************************************************************)
EXTENDS Scalar, FiniteSets
CONSTANTS Bits, Len0, Variant
Types == {[f |-> 0, bits |-> Bits, sg |-> g] : g \in {0, 1}}
Lo(t) == IF t.sg = 1 THEN -(2 ^ (Bits - 1)) ELSE 0
Hi(t) == IF t.sg = 1 THEN 2 ^ (Bits - 1) - 1 ELSE 2 ^ Bits - 1
Abs(n) == IF n < 0 THEN -n ELSE n
Val(n) == <<0, IF n < 0 THEN 1 ELSE 0, OfInt(Abs(n))>>
\* the operators on TLC's own integers
TDiv(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
Native(op, a, b) ==
  CASE op = 0 -> a + b [] op = 1 -> a - b [] op = 2 -> a * b
    [] op = 3 -> TDiv(a, b) [] op = 4 -> a - b * TDiv(a, b) [] OTHER -> -a
WrapN(t, n) == LET m == n % (2 ^ Bits) IN IF m > Hi(t) THEN m - 2 ^ Bits ELSE m

\* what the implementation's body computes at one element
Body(t, op, form, e, s) ==
  LET l == IF ScalarLeft(form) /\ op # 5 THEN s ELSE e
      r == IF ScalarLeft(form) /\ op # 5 THEN e ELSE s
  IN CASE Variant = "swap" /\ form = 6 -> Sem(t, op, r, l)
       [] Variant = "euclid" /\ op = 4 /\ r[3] # <<>> /\ l[2] = 1 /\ Mod(l[3], r[3]) # <<>> ->
            <<"v", Fin(0, Sub(r[3], Mod(l[3], r[3])))>>
       [] Variant = "floor" /\ op = 3 /\ r[3] # <<>> /\ l[2] # r[2] /\ Mod(l[3], r[3]) # <<>> ->
            Whole(t, Plus(Fin(Xor(l[2], r[2]), Quo(l[3], r[3])), Val(-1)))
       [] OTHER -> Sem(t, op, l, r)

VARIABLES ty, op, form, scalar, elems, done, calls
vars == <<ty, op, form, scalar, elems, done, calls>>
Init == /\ ty \in Types /\ op \in 0..5 /\ form \in {0, 2, 4, 6, 16}
        /\ op = 5 => ty.sg = 1 /\ form \in {0, 4}
        /\ scalar \in {Val(n) : n \in Lo(ty)..Hi(ty)}
        /\ elems \in [1..Len0 -> {Val(n) : n \in Lo(ty)..Hi(ty)}]
        /\ done = <<>> /\ calls = [i \in 1..Len0 |-> 0]
Step == /\ Len(done) < Len0
        /\ LET i == Len(done) + 1
               once == Body(ty, op, form, elems[i], scalar)
           IN /\ done' = Append(done, IF Variant = "twice" /\ once[1] = "v" /\ i = Len0
                                      THEN Body(ty, op, form, once[2], scalar) ELSE once)
              /\ calls' = [calls EXCEPT ![i] = @ + 1]
        /\ UNCHANGED <<ty, op, form, scalar, elems>>
Next == Step
Elementwise == \A i \in 1..Len(done) : done[i] = Element(ty, op, form, elems[i], scalar)
Once == \A i \in 1..Len(done) : calls[i] = 1
\* the BigNat arithmetic against TLC's
Agrees == \A i \in 1..Len(done) :
  LET v(x) == IF x[2] = 1 THEN -ToInt(x[3]) ELSE ToInt(x[3])
      a == v(IF ScalarLeft(form) /\ op # 5 THEN scalar ELSE elems[i])
      b == v(IF ScalarLeft(form) /\ op # 5 THEN elems[i] ELSE scalar)
      s == Element(ty, op, form, elems[i], scalar)
  IN IF op \in {3, 4} /\ (b = 0 \/ TDiv(a, b) > Hi(ty)) THEN s[1] = "panic"
     ELSE LET n == Native(op, a, b)
          IN IF n \in Lo(ty)..Hi(ty) THEN s = <<"v", Val(n)>> ELSE s = <<"over", Val(WrapN(ty, n))>>
=============================================================================
