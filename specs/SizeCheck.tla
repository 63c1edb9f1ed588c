----------------------------- MODULE SizeCheck ------------------------------
(***************************************************************************)
(* A shape-taking constructor on a machine word of B bits, for every pair  *)
(* of extents and element sizes up to MaxE: the checks, the allocation and *)
(* the resulting matrix.                                                   *)
(* Design "code": checked product of the extents, then the saturating      *)
(* product with the element size against isize::MAX.                       *)
(* "wrapsize": the element count wraps around (rejected)                   *)
(* "wrapbytes": the byte size wraps around (rejected)                      *)
(* "strict": byte sizes of exactly isize::MAX are refused (rejected)       *)
(* "nobytes": the byte size is left to the allocation (rejected)           *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS B, MaxE, Design
VARIABLES nr, nc, es, pc, len, req, res
vars == <<nr, nc, es, pc, len, req, res>>
UMax == 2 ^ B - 1
IMax == 2 ^ (B - 1) - 1
Word == 0..UMax
Wrap(x) == x % (UMax + 1)
Sat(x) == IF x > UMax THEN UMax ELSE x
Init == /\ nr \in Word /\ nc \in Word /\ es \in 0..MaxE
        /\ pc = "size" /\ len = 0 /\ req = -1 /\ res = "none"
CheckSize ==
  /\ pc = "size"
  /\ IF nr * nc > UMax /\ Design # "wrapsize"
     THEN pc' = "end" /\ res' = "SizeOverflow" /\ UNCHANGED len
     ELSE pc' = "bytes" /\ len' = Wrap(nr * nc) /\ UNCHANGED res
  /\ UNCHANGED <<nr, nc, es, req>>
CheckBytes ==
  /\ pc = "bytes"
  /\ LET b == IF Design = "wrapbytes" THEN Wrap(es * len) ELSE Sat(es * len)
         bad == IF Design = "strict" THEN b >= IMax ELSE b > IMax
     IN IF bad /\ Design # "nobytes"
        THEN pc' = "end" /\ res' = "CapacityOverflow"
        ELSE pc' = "alloc" /\ UNCHANGED res
  /\ UNCHANGED <<nr, nc, es, len, req>>
\* the vector computes its own byte size, which it refuses to exceed
Allocate ==
  /\ pc = "alloc" /\ pc' = "end"
  /\ IF es * len > IMax THEN res' = "panic" /\ UNCHANGED req
     ELSE res' = "ok" /\ req' = es * len
  /\ UNCHANGED <<nr, nc, es, len>>
Next == CheckSize \/ CheckBytes \/ Allocate \/ (pc = "end" /\ UNCHANGED vars)
Expected == IF nr * nc > UMax THEN "SizeOverflow"
            ELSE IF nr * nc * es > IMax THEN "CapacityOverflow" ELSE "ok"
Right == pc = "end" => res = Expected
Coherent == res = "ok" => len = nr * nc /\ req = es * len
NeverTried == req >= 0 => req <= IMax
=============================================================================
