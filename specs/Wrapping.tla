------------------------------ MODULE Wrapping ------------------------------
(***************************************************************************)
(* The arithmetic of wrapping indices on a machine word of B bits, every   *)
(* index value and every extent: AxisIndex::from_wrapping_index against    *)
(* the mathematical remainder.                                             *)
(* Design "code": the committed formula.  "signed": the extent is          *)
(* converted to isize (rejected: wrong beyond isize::MAX).  "abs": the     *)
(* absolute value is taken as isize (rejected: isize::MIN overflows).      *)
(* "noreduce": the last reduction is missing (rejected).                   *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS B, Design
VARIABLES i, n
vars == <<i, n>>
UMax == 2 ^ B - 1
IMax == 2 ^ (B - 1) - 1
IMin == -(2 ^ (B - 1))
Init == i \in IMin..IMax /\ n \in 1..UMax
Next == UNCHANGED vars
\* wrap into the signed word
Signed(x) == LET y == x % (UMax + 1) IN IF y > IMax THEN y - (UMax + 1) ELSE y
UAbs == IF i < 0 THEN -i ELSE i
Euclid(x, m) == IF m > 0 THEN x % m ELSE x % (-m)
Code ==
  CASE Design = "code" -> IF i < 0 THEN (n - (UAbs % n)) % n ELSE i % n
    [] Design = "noreduce" -> IF i < 0 THEN n - (UAbs % n) ELSE i % n
    [] Design = "signed" -> IF Signed(n) = 0 THEN 0 ELSE Euclid(i, Signed(n))
    [] Design = "abs" -> IF i < 0 THEN LET a == Signed(UAbs) % (UMax + 1)
                                           u == IF Signed(UAbs) < 0 THEN UMax ELSE a
                                       IN (n - (u % n)) % n ELSE i % n
Right == Code = i % n                 \* TLA+ %: the non-negative remainder
NoOverflow == UAbs \in 0..UMax /\ (Design = "code" => n - (UAbs % n) >= 0)
=============================================================================
