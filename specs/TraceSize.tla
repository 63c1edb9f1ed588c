----------------------------- MODULE TraceSize ------------------------------
(***************************************************************************)
(* Validates what real operations do for a requested size (C08) against    *)
(* unbounded arithmetic.  A line: op, us (size of a result element), ts    *)
(* (of a source element), ord, nr, nc (requested), pnr, pnc (before), res, *)
(* post = <<nrows, ncols, size, order>>; res "alloc": the allocator was    *)
(* asked for more than 64 MiB (and the process ended there); "busy": still *)
(* filling after 150 ms.                                                   *)
(***************************************************************************)
EXTENDS BigNat, TLC, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, k
vars == <<sid, k>>

Count(c) == Mul(c.nr, c.nc)
Bytes(c) == Mul(Count(c), OfInt(c.us))
Pre(c) == Mul(c.pnr, c.pnc)
ReshapeOp == 4
ShapeOp == 5
Expected(c) ==
  IF c.op = ReshapeOp THEN IF Count(c) = Pre(c) THEN "ok" ELSE "err:SizeMismatch"
  ELSE IF Less(USizeMax, Count(c)) THEN "err:SizeOverflow"
  ELSE IF c.op # ShapeOp /\ Less(ISizeMax, Bytes(c)) THEN "err:CapacityOverflow"
  ELSE "ok"
Limit == Pow2(26)
\* legal, but out of reach: the attempt is all that can be seen.  An operation
\* may also need space for other things than its result (for instance a second
\* buffer while it grows), so that half of the limit is enough of a reason
OutOfReach(c) == Leq(Pow2(24), Bytes(c))
Endless(c) == \E n \in {c.nr, c.nc, c.pnr, c.pnc} : Leq(Pow2(12), n)
Busy(c) == Endless(c) \/ Leq(Pow2(14), Count(c))
OrdOf(c) == CASE c.op \in {0, 1, 2, 5, 8, 9, 10} -> 0
              [] c.op \in {3, 4} -> c.ord
              [] OTHER -> c.ord % 2
Post(c, nr, nc) == /\ Len(c.post) = 4
                   /\ c.post[1] = nr /\ c.post[2] = nc /\ c.post[3] = Mul(nr, nc)
                   /\ c.post[4] = OrdOf(c)
\* operations that only rearrange: on far more (zero-sized) elements than memory has bytes
Zero == OfInt(0)
Has(c) == c.pnr # Zero /\ c.pnc # Zero
InPlace(c) ==
  CASE c.op = 36 -> Less(c.nr, c.pnr) /\ Less(c.nc, c.pnr)
    [] c.op = 37 -> Less(c.nr, c.pnc) /\ Less(c.nc, c.pnc)
    [] c.op = 38 -> Has(c) /\ Less(c.nr, c.pnr) /\ Less(c.nc, c.pnc)
    [] c.op = 35 -> Has(c)
    [] OTHER -> TRUE
Flip(c) == CASE c.op \in {31, 32} -> TRUE
             [] c.op \in {33, 34} -> (IF c.nr = Zero THEN 0 ELSE 1) # c.ord
             [] OTHER -> FALSE
Turned(c) == c.op \in {30, 32} \/ (c.op = 34 /\ Flip(c))
\* overwriting: both matrices keep their shape and order; every element of the
\* common block comes from a copy
Least(x, y) == IF Leq(x, y) THEN x ELSE y
Overlay(c) ==
  \/ c.res = "busy" /\ Busy(c)
  \/ /\ c.res = "ok" /\ Len(c.post) = 3
     /\ c.post[1] = <<c.pnr, c.pnc, Pre(c), c.ord % 2>>
     /\ c.post[2] = <<c.nr, c.nc, Count(c), c.ord \div 2>>
     /\ Leq(Mul(Least(c.nr, c.pnr), Least(c.nc, c.pnc)), c.post[3])
Rearranged(c) ==
  /\ \/ c.res = "busy" /\ Busy(c)
     \/ /\ c.res = (IF InPlace(c) THEN "ok" ELSE "err:IndexOutOfBounds")
        /\ Len(c.post) = 4
        /\ <<c.post[1], c.post[2]>> = (IF c.op = 39 THEN <<Zero, Zero>>
                                       ELSE IF Turned(c) THEN <<c.pnc, c.pnr>> ELSE <<c.pnr, c.pnc>>)
        /\ c.post[3] = Mul(c.post[1], c.post[2])
        /\ c.post[4] = (IF Flip(c) THEN 1 - c.ord ELSE c.ord % 2)
Accept(c) ==
  /\ "res" \in DOMAIN c
  /\ IF c.op >= 40 THEN Overlay(c) ELSE IF c.op >= 30 THEN Rearranged(c) ELSE
     LET x == Expected(c)
     IN IF x = "ok"
        THEN \/ c.res = "ok" /\ Post(c, c.nr, c.nc)
             \/ c.res = "alloc" /\ OutOfReach(c) /\ Leq(c.bytes, ISizeMax)
             \/ c.res = "busy" /\ Busy(c)
        ELSE /\ c.res = x
             /\ c.op \in {3, 4} => Post(c, c.pnr, c.pnc)      \* left as it was
Init == sid \in 1..Len(Tr) /\ k = 1
Next == \/ k = 1 /\ Accept(Tr[sid]) /\ k' = 2 /\ UNCHANGED sid
        \/ k = 2 /\ UNCHANGED vars
=============================================================================
