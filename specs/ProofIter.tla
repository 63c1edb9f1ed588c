------------------------------ MODULE ProofIter -----------------------------
(* C03, C06, C15: the two-ended pointer iterator.  L items, S apart, the first at Base; the       *)
(* pointers name the first and the last item still to come.  Every item is handed out at most     *)
(* once, from the front in ascending and from the back in descending order, at its own address,   *)
(* and the length computed from the pointers is the number of items to come, whatever the          *)
(* interleaving.                                                                                   *)
EXTENDS ProofArith
CONSTANTS L, S, Base
ASSUME Consts == L \in Nat /\ S \in Pos /\ Base \in Nat
VARIABLES lower, upper, alive, f, b, last
vars == <<lower, upper, alive, f, b, last>>

Init == /\ f = 0 /\ b = 0 /\ last = Base
        /\ alive = (L > 0)
        /\ lower = Base
        /\ upper = IF L > 0 THEN Base + (L - 1) * S ELSE Base
Front == /\ alive
         /\ last' = lower /\ f' = f + 1 /\ b' = b
         /\ IF lower = upper THEN alive' = FALSE /\ lower' = lower
            ELSE alive' = TRUE /\ lower' = lower + S
         /\ upper' = upper
Back == /\ alive
        /\ last' = upper /\ b' = b + 1 /\ f' = f
        /\ IF lower = upper THEN alive' = FALSE /\ upper' = upper
           ELSE alive' = TRUE /\ upper' = upper - S
        /\ lower' = lower
Next == Front \/ Back
Spec == Init /\ [][Next]_vars

Inv == /\ f \in Nat /\ b \in Nat /\ alive \in BOOLEAN
       /\ lower \in Int /\ upper \in Int
       /\ alive => /\ f + b < L
                   /\ lower = Base + f * S
                   /\ upper = Base + (L - 1 - b) * S
       /\ ~alive => f + b = L

LEMMA MulEq == ASSUME NEW x \in Int, NEW y \in Int
               PROVE  x * S = y * S <=> x = y
<1>1. S \in Nat /\ S > 0 BY Consts DEF Pos
<1>2. ASSUME x >= y + 1 PROVE x * S > y * S
  <2>1. x * S >= (y + 1) * S BY MulGe, <1>1, <1>2, y + 1 \in Int
  <2>2. (y + 1) * S = y * S + S BY <1>1
  <2> QED BY <2>1, <2>2, <1>1
<1>3. ASSUME y >= x + 1 PROVE y * S > x * S
  <2>1. y * S >= (x + 1) * S BY MulGe, <1>1, <1>3, x + 1 \in Int
  <2>2. (x + 1) * S = x * S + S BY <1>1
  <2> QED BY <2>1, <2>2, <1>1
<1>4. x * S \in Int /\ y * S \in Int BY <1>1
<1> QED BY <1>2, <1>3, <1>4

(* the pointers meet exactly when one item is left *)
LEMMA Meet == ASSUME Inv, alive PROVE lower = upper <=> f + b = L - 1
<1>1. /\ lower = Base + f * S /\ upper = Base + (L - 1 - b) * S /\ f \in Int /\ L - 1 - b \in Int
  BY Consts DEF Inv
<1>2. f * S \in Int /\ (L - 1 - b) * S \in Int /\ Base \in Int BY <1>1, Consts DEF Pos
<1>3. lower = upper <=> f * S = (L - 1 - b) * S BY <1>1, <1>2
<1>4. lower = upper <=> f = L - 1 - b BY <1>1, <1>3, MulEq
<1> QED BY <1>4, <1>1, Consts DEF Inv

THEOREM IterInv == Spec => []Inv
<1>1. Init => Inv
  <2> SUFFICES ASSUME Init PROVE Inv OBVIOUS
  <2>1. 0 * S = 0 /\ (L - 1) * S \in Int /\ L - 1 - 0 = L - 1 BY Consts DEF Pos
  <2> QED BY <2>1, Consts DEF Init, Inv, Pos
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
  <2> USE Consts
  <2>1. CASE Front
    <3>1. lower = upper <=> f + b = L - 1 BY <2>1, Meet DEF Front
    <3>2. (f + 1) * S = f * S + S /\ f * S \in Int BY DEF Inv, Pos
    <3>3. Base + f * S + S = Base + (f + 1) * S BY <3>2 DEF Inv, Pos
    <3> QED BY <2>1, <3>1, <3>2, <3>3 DEF Front, Inv, Pos
  <2>2. CASE Back
    <3>1. lower = upper <=> f + b = L - 1 BY <2>2, Meet DEF Back
    <3>2. (L - 1 - (b + 1)) * S = (L - 1 - b) * S - S /\ (L - 1 - b) * S \in Int BY DEF Inv, Pos
    <3>3. Base + (L - 1 - b) * S - S = Base + (L - 1 - (b + 1)) * S BY <3>2 DEF Inv, Pos
    <3>4. f' = f /\ b' = b + 1 /\ lower' = lower /\ f \in Nat /\ b \in Nat /\ L \in Nat /\ lower \in Int /\ upper \in Int
      BY <2>2 DEF Back, Inv
    <3>5. lower = Base + f * S /\ upper = Base + (L - 1 - b) * S /\ f + b < L BY <2>2 DEF Back, Inv
    <3>6. CASE lower = upper
      <4>1. alive' = FALSE /\ upper' = upper BY <2>2, <3>6 DEF Back
      <4>2. f' + b' = L BY <3>1, <3>4, <3>6
      <4> QED BY <4>1, <4>2, <3>4 DEF Inv
    <3>7. CASE lower # upper
      <4>1. alive' = TRUE /\ upper' = upper - S BY <2>2, <3>7 DEF Back
      <4>2. f' + b' < L BY <3>1, <3>4, <3>5, <3>7
      <4>3. upper' = Base + (L - 1 - b') * S
        <5>1. upper' = Base + (L - 1 - b) * S - S BY <4>1, <3>5, <3>4, <3>2 DEF Pos
        <5>2. b' = b + 1 BY <3>4
        <5> QED BY <5>1, <5>2, <3>3
      <4>4. upper' \in Int BY <4>1, <3>4 DEF Pos
      <4> QED BY <4>1, <4>2, <4>3, <4>4, <3>4, <3>5 DEF Inv
    <3> QED BY <3>6, <3>7
  <2>3. CASE UNCHANGED vars BY <2>3 DEF vars, Inv
  <2> QED BY <2>1, <2>2, <2>3 DEF Next
<1> QED BY <1>1, <1>2, PTL DEF Spec

(* the item handed out by a step is the next one from that end, inside the buffer *)
THEOREM FrontItem == ASSUME Inv, Front PROVE last' = Base + f * S /\ f \in 0..(L - 1)
BY Consts DEF Inv, Front
THEOREM BackItem == ASSUME Inv, Back PROVE last' = Base + (L - 1 - b) * S /\ L - 1 - b \in 0..(L - 1)
BY Consts DEF Inv, Back
(* the length as the code computes it *)
THEOREM Len == ASSUME Inv, alive PROVE ((upper - lower) \div S) + 1 = L - f - b
<1>1. upper - lower = (L - 1 - b - f) * S + 0
  <2>1. (L - 1 - b - f) * S = (L - 1 - b) * S - f * S BY Consts DEF Inv, Pos
  <2>2. f * S \in Int /\ (L - 1 - b) * S \in Int BY Consts DEF Inv, Pos
  <2> QED BY <2>1, <2>2, Consts DEF Inv, Pos
<1>2. L - 1 - b - f \in Int /\ 0 \in 0..(S - 1) BY Consts DEF Inv, Pos
<1>3. (upper - lower) \div S = L - 1 - b - f BY <1>1, <1>2, DivUnique, Consts
<1> QED BY <1>2, <1>3, Consts DEF Inv
=============================================================================
