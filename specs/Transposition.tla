--------------------------- MODULE Transposition ---------------------------
(***************************************************************************)
(* The in-place transposition of src/lib.rs: A major vectors of B elements  *)
(* become B major vectors of A elements.  A bit per position says whether   *)
(* its cycle has been followed; the element at the start of the cycle is    *)
(* the temporary through which the cycle is rotated.  One action per swap.  *)
(* Design "code".  Rejected: "nobits" (the bits are forgotten with each     *)
(* cycle), "old" (the target is computed with the old shape), "half" (only  *)
(* the first half of the positions is tried as the start of a cycle).       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS MaxDim, Design
VARIABLES A, B, buf, seen, ix, cur, pc
vars == <<A, B, buf, seen, ix, cur, pc>>
N == A * B
\* element number p+1 starts at position p
Start == [p \in 0..(N - 1) |-> p + 1]
Target(p) == LET ma == p \div B
                 mi == p % B
             IN IF Design = "old" THEN mi * B + ma ELSE mi * A + ma

Init == /\ A \in 0..MaxDim /\ B \in 0..MaxDim
        /\ buf = Start /\ seen = {} /\ ix = 0 /\ cur = 0 /\ pc = "scan"
Limit == IF Design = "half" THEN N \div 2 ELSE N
Scan == /\ pc = "scan"
        /\ IF ix < Limit THEN cur' = ix /\ pc' = "walk" ELSE pc' = "done" /\ UNCHANGED cur
        /\ UNCHANGED <<A, B, buf, seen, ix>>
Walk == /\ pc = "walk"
        /\ IF cur \in seen
           THEN /\ pc' = "scan" /\ ix' = ix + 1
                /\ seen' = IF Design = "nobits" THEN {} ELSE seen
                /\ UNCHANGED <<buf, cur>>
           ELSE LET t == Target(cur)
                IN /\ t \in DOMAIN buf
                   /\ buf' = [buf EXCEPT ![ix] = buf[t], ![t] = buf[ix]]
                   /\ seen' = seen \cup {cur} /\ cur' = t
                   /\ UNCHANGED <<ix, pc>>
        /\ UNCHANGED <<A, B>>
Next == Scan \/ Walk \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* no swap leaves the buffer
InBounds == pc = "walk" => cur \in 0..(N - 1) /\ Target(cur) \in 0..(N - 1)
\* elements are only ever moved
Permutation == {buf[p] : p \in DOMAIN buf} = 1..N
\* positions whose cycle is complete hold their final element
Want(q) == LET i == q \div A
               j == q % A
           IN j * B + i + 1
Closed == (pc = "scan" /\ Design # "nobits") => \A p \in seen : buf[p] = Want(p)
Done == pc = "done" => \A q \in 0..(N - 1) : buf[q] = Want(q)
\* every position is the source of exactly one swap
Once == (pc = "done" /\ Design # "nobits") => seen = 0..(N - 1)
Ends == <>(pc = "done")
=============================================================================
