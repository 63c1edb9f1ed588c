------------------------------- MODULE Views --------------------------------
(***************************************************************************)
(* The index arithmetic of the views: strides (shape.rs), flattening and   *)
(* unflattening (index.rs), and the skip/step/take views (iter.rs), for    *)
(* every small shape and both orders, against the logical matrix.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxDim, Design
VARIABLES ord, nr, nc
vars == <<ord, nr, nc>>
Init == ord \in {0, 1} /\ nr \in 0..MaxDim /\ nc \in 0..MaxDim
Next == UNCHANGED vars

Major == IF ord = 0 THEN nr ELSE nc
Minor == IF ord = 0 THEN nc ELSE nr
MajorStride == Minor
MinorStride == 1
N == Major * Minor

Flat(i, j) == LET M == IF ord = 0 THEN i ELSE j  m == IF ord = 0 THEN j ELSE i
              IN M * MajorStride + m * MinorStride
Unflat(p) == LET M == p \div MajorStride  m == (p % MajorStride) \div MinorStride
             IN IF ord = 0 THEN <<M, m>> ELSE <<m, M>>

\* data.iter().skip(s).step_by(d).take(t): positions visited; step_by(0) panics
View(s, d, t) ==
  LET have == IF s >= N THEN 0 ELSE (N - s + d - 1) \div d
      n == IF have < t THEN have ELSE t
  IN [k \in 1..n |-> s + (k - 1) * d]
MajorVec(k) == [step |-> MinorStride, skip |-> k * MajorStride, take |-> Minor]
MinorVec(k) == [step |-> IF Design = "nostep" THEN Major ELSE MajorStride,
                skip |-> k * MinorStride, take |-> Major]
RowView(k) == IF ord = 0 THEN MajorVec(k) ELSE MinorVec(k)
ColView(k) == IF ord = 0 THEN MinorVec(k) ELSE MajorVec(k)
Items(v) == View(v.skip, v.step, v.take)

\* row by row for row-major, column by column for column-major
Bijection ==
  /\ \A p \in 0..(N - 1) : LET x == Unflat(p) IN
        x[1] \in 0..(nr - 1) /\ x[2] \in 0..(nc - 1) /\ Flat(x[1], x[2]) = p
  /\ \A i \in 0..(nr - 1), j \in 0..(nc - 1) :
        Flat(i, j) \in 0..(N - 1) /\ Unflat(Flat(i, j)) = <<i, j>>
  /\ \A p \in 1..(N - 1) : LET x == Unflat(p - 1)  y == Unflat(p) IN
        IF ord = 0 THEN y[1] > x[1] \/ (y[1] = x[1] /\ y[2] = x[2] + 1)
                   ELSE y[2] > x[2] \/ (y[2] = x[2] /\ y[1] = x[1] + 1)
RowsRight ==
  \A i \in 0..(nr - 1) :
     /\ RowView(i).step > 0
     /\ Items(RowView(i)) = [k \in 1..nc |-> Flat(i, k - 1)]
ColsRight ==
  \A j \in 0..(nc - 1) :
     /\ ColView(j).step > 0
     /\ Items(ColView(j)) = [k \in 1..nr |-> Flat(k - 1, j)]
=============================================================================
