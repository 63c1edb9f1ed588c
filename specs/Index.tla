------------------------------- MODULE Index --------------------------------
(***************************************************************************)
(* Checked access with an adversarial index type on a machine word of      *)
(* values 0..Max: every accessor call may return any value.  The access    *)
(* reads the accessors, compares with the shape, flattens (wrapping        *)
(* multiplication, as in a release build) and reads one element.           *)
(* Design "once": the accessors are read once, before the check (the code) *)
(* "toctou": they are read again for the access (rejected)                 *)
(* "flat": only the flattened index is checked (rejected)                  *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Max, MaxDim, Design
Word == 0..Max
VARIABLES sh, pc, row, col, served, got
vars == <<sh, pc, row, col, served, got>>
\* sh = [ord, nr, nc]; got = -2 not yet, -1 error, p: element p read
Init == /\ sh \in [ord : {0, 1}, nr : 0..MaxDim, nc : 0..MaxDim]
        /\ sh.nr * sh.nc <= Max
        /\ pc = "row" /\ row = 0 /\ col = 0 /\ served = <<{}, {}>> /\ got = -2
Stride == IF sh.ord = 0 THEN sh.nc ELSE sh.nr
FlatOf(r, c) == LET M == IF sh.ord = 0 THEN r ELSE c  m == IF sh.ord = 0 THEN c ELSE r
                IN (M * Stride + m) % (Max + 1)
ReadRow(next) == \E v \in Word : row' = v /\ served' = [served EXCEPT ![1] = @ \cup {v}]
                                 /\ pc' = next /\ UNCHANGED <<sh, col, got>>
ReadCol(next) == \E v \in Word : col' = v /\ served' = [served EXCEPT ![2] = @ \cup {v}]
                                 /\ pc' = next /\ UNCHANGED <<sh, row, got>>
InRange == row < sh.nr /\ col < sh.nc
Check == LET ok == IF Design = "flat" THEN FlatOf(row, col) < sh.nr * sh.nc ELSE InRange
         IN /\ pc' = IF ~ok THEN "end" ELSE IF Design = "toctou" THEN "row2" ELSE "use"
            /\ got' = IF ok THEN got ELSE -1
            /\ UNCHANGED <<sh, row, col, served>>
Use == got' = FlatOf(row, col) /\ pc' = "end" /\ UNCHANGED <<sh, row, col, served>>
Next == \/ pc = "row" /\ ReadRow("col")
        \/ pc = "col" /\ ReadCol("check")
        \/ pc = "check" /\ Check
        \/ pc = "row2" /\ ReadRow("col2")
        \/ pc = "col2" /\ ReadCol("use")
        \/ pc = "use" /\ Use
InBounds == got >= 0 => got < sh.nr * sh.nc
\* the element is the one at a position the index type named, in range; an
\* error means that it named a position out of range
Exact == pc = "end" =>
  IF got >= 0
  THEN \E r \in served[1], c \in served[2] : r < sh.nr /\ c < sh.nc /\ got = FlatOf(r, c)
  ELSE (\E r \in served[1] : r >= sh.nr) \/ (\E c \in served[2] : c >= sh.nc)
\* distinct positions in range are distinct elements: no overflow in flattening
Injective == \A r \in 0..(sh.nr - 1), c \in 0..(sh.nc - 1), r2 \in 0..(sh.nr - 1), c2 \in 0..(sh.nc - 1) :
   FlatOf(r, c) = FlatOf(r2, c2) => r = r2 /\ c = c2
=============================================================================
