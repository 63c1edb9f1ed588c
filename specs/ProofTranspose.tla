---------------------------- MODULE ProofTranspose ----------------------------
(***************************************************************************)
(* The in-place transposition (Transposition.tla, design "code"), for every  *)
(* shape: when it ends, the element that was at position p is at Target(p),  *)
(* every access is inside the buffer, elements are only ever exchanged.       *)
(* An element is named by the position it started from.                       *)
(***************************************************************************)
EXTENDS ProofArith
CONSTANTS A, B
ASSUME Shape == A \in Nat /\ B \in Nat
N == A * B
P == 0..(N - 1)
T(p) == Target(p, A, B)
VARIABLES buf, seen, ix, cur, pc
vars == <<buf, seen, ix, cur, pc>>

Init == /\ buf = [p \in P |-> p] /\ seen = {} /\ ix = 0 /\ cur = 0 /\ pc = "scan"
Scan == /\ pc = "scan"
        /\ IF ix < N THEN cur' = ix /\ pc' = "walk" ELSE pc' = "done" /\ cur' = cur
        /\ UNCHANGED <<buf, seen, ix>>
Leave == /\ pc = "walk" /\ cur \in seen
         /\ pc' = "scan" /\ ix' = ix + 1
         /\ UNCHANGED <<buf, seen, cur>>
Step == /\ pc = "walk" /\ cur \notin seen
        /\ buf' = [buf EXCEPT ![ix] = buf[T(cur)], ![T(cur)] = buf[ix]]
        /\ seen' = seen \cup {cur} /\ cur' = T(cur)
        /\ UNCHANGED <<ix, pc>>
Next == Scan \/ Leave \/ Step
Spec == Init /\ [][Next]_vars

LEMMA TType == ASSUME NEW p \in P PROVE T(p) \in P
<1>1. B * A = A * B BY Shape
<1> QED BY <1>1, TargetInverse, Shape DEF T, P, N
LEMMA TInj == ASSUME NEW p \in P, NEW r \in P, T(p) = T(r) PROVE p = r
BY TargetInjective, Shape DEF T, P, N

(* q has a predecessor whose move has been made *)
Moved(q) == \E p \in seen : T(p) = q


Typ == buf \in [P -> P] /\ seen \subseteq P /\ ix \in Nat /\ pc \in {"scan", "walk", "done"}
\* what has been moved is where it belongs, the rest is where it was
Right == \A p \in seen : buf[T(p)] = p
Rest == \A q \in P : ~Moved(q) /\ ~(pc = "walk" /\ q = ix) => buf[q] = q
\* everything before ix has been moved
Before == \A p \in P : p < ix => p \in seen
\* between two cycles, the moved positions are closed in both directions
Closed == pc = "scan" => \A q \in seen : T(q) \in seen /\ Moved(q)
Walk == pc = "walk" =>
          /\ ix \in P /\ cur \in P
          /\ \A p \in seen : T(p) \in seen \cup {cur}
          /\ \A q \in seen : q # ix => Moved(q)
          /\ cur # ix => Moved(cur)
          /\ cur \notin seen => buf[ix] = cur /\ ~Moved(ix)
          /\ cur \in seen => cur = ix /\ Moved(ix)
          /\ cur \notin seen /\ cur # ix => ix \in seen
Done == pc = "done" => seen = P
Inv == Typ /\ Right /\ Rest /\ Before /\ Closed /\ Walk /\ Done

LEMMA InitInv == Init => Inv
<1> SUFFICES ASSUME Init PROVE Inv OBVIOUS
<1> QED BY Shape DEF Init, Inv, Typ, Right, Rest, Before, Closed, Walk, Done, Moved, P, N

LEMMA ScanInv == Inv /\ Scan => Inv'
<1> SUFFICES ASSUME Inv, Scan PROVE Inv' OBVIOUS
<1>0. pc = "scan" /\ buf' = buf /\ seen' = seen /\ ix' = ix BY DEF Scan
<1>1. \A q : Moved(q)' <=> Moved(q) BY <1>0 DEF Moved
<1>2. CASE ix < N
  <2>1. cur' = ix /\ pc' = "walk" BY <1>2 DEF Scan
  <2>2. ix \in P BY <1>2, Shape DEF Inv, Typ, P, N
  <2>3. Typ' /\ Right' /\ Before' /\ Closed' /\ Done' BY <1>0, <2>1, <1>1 DEF Inv, Typ, Right, Before, Closed, Done
  <2>4. Rest' BY <1>0, <2>1, <1>1 DEF Inv, Rest
  <2>5. ix \notin seen => ~Moved(ix) BY <1>0 DEF Inv, Closed, Moved
  <2>6. ix \notin seen => buf[ix] = ix BY <1>0, <2>2, <2>5 DEF Inv, Rest
  <2>7. ix \in seen => Moved(ix) BY <1>0 DEF Inv, Closed
  <2>8. \A q \in seen : T(q) \in seen /\ Moved(q) BY <1>0 DEF Inv, Closed
  <2>9. Walk' BY <1>0, <1>1, <2>1, <2>2, <2>5, <2>6, <2>7, <2>8 DEF Walk
  <2> QED BY <2>3, <2>4, <2>9 DEF Inv
<1>3. CASE ~(ix < N)
  <2>1. pc' = "done" /\ cur' = cur BY <1>3 DEF Scan
  <2>2. \A p \in P : p < ix BY <1>3, Shape DEF P, N, Inv, Typ
  <2>3. seen = P BY <2>2 DEF Inv, Before, Typ
  <2>4. Rest' BY <1>0, <2>1, <1>1 DEF Inv, Rest
  <2> QED BY <1>0, <2>1, <1>1, <2>3, <2>4 DEF Inv, Typ, Right, Before, Closed, Done, Walk
<1> QED BY <1>2, <1>3

LEMMA LeaveInv == Inv /\ Leave => Inv'
<1> SUFFICES ASSUME Inv, Leave PROVE Inv' OBVIOUS
<1>0. /\ pc = "walk" /\ cur \in seen /\ pc' = "scan" /\ ix' = ix + 1
      /\ buf' = buf /\ seen' = seen /\ cur' = cur BY DEF Leave
<1>1. \A q : Moved(q)' <=> Moved(q) BY <1>0 DEF Moved
<1>2. cur = ix /\ Moved(ix) /\ ix \in seen /\ ix \in P BY <1>0 DEF Inv, Walk
<1>3. \A q \in seen : Moved(q) BY <1>0, <1>2 DEF Inv, Walk
<1>4. \A q \in seen : T(q) \in seen BY <1>0, <1>2 DEF Inv, Walk
<1>5. Closed' BY <1>0, <1>1, <1>3, <1>4 DEF Closed
<1>6. Rest'
  <2> SUFFICES ASSUME NEW q \in P, ~Moved(q) PROVE buf[q] = q BY <1>0, <1>1 DEF Rest
  <2>1. q # ix BY <1>2
  <2> QED BY <2>1 DEF Inv, Rest
<1>7. Before'
  <2> SUFFICES ASSUME NEW p \in P, p < ix + 1 PROVE p \in seen BY <1>0 DEF Before
  <2>1. p < ix \/ p = ix BY DEF Inv, Typ, P
  <2> QED BY <2>1, <1>2 DEF Inv, Before
<1>8. Typ' /\ Right' /\ Walk' /\ Done' BY <1>0, <1>1 DEF Inv, Typ, Right, Walk, Done
<1> QED BY <1>5, <1>6, <1>7, <1>8 DEF Inv

LEMMA StepInv == Inv /\ Step => Inv'
<1> SUFFICES ASSUME Inv, Step PROVE Inv' OBVIOUS
<1> DEFINE t == T(cur)
<1>0. /\ pc = "walk" /\ cur \notin seen /\ pc' = "walk" /\ ix' = ix
      /\ buf' = [buf EXCEPT ![ix] = buf[t], ![t] = buf[ix]]
      /\ seen' = seen \cup {cur} /\ cur' = t BY DEF Step
<1>1. ix \in P /\ cur \in P /\ t \in P BY <1>0, TType DEF Inv, Walk
<1>2. \A q : Moved(q)' <=> Moved(q) \/ q = t BY <1>0 DEF Moved
<1>3. buf[ix] = cur /\ ~Moved(ix) BY <1>0 DEF Inv, Walk
<1>4. \A p \in seen : T(p) \in seen \cup {cur} /\ T(p) # t /\ T(p) # ix /\ T(p) \in P /\ p \in P
  <2> SUFFICES ASSUME NEW p \in seen PROVE T(p) \in seen \cup {cur} /\ T(p) # t /\ T(p) # ix /\ T(p) \in P /\ p \in P OBVIOUS
  <2>1. p \in P /\ p # cur BY <1>0 DEF Inv, Typ
  <2>2. T(p) # t BY <2>1, <1>1, TInj
  <2>3. T(p) # ix BY <1>3 DEF Moved
  <2>4. T(p) \in seen \cup {cur} BY <1>0 DEF Inv, Walk
  <2> QED BY <2>1, <2>2, <2>3, <2>4, TType
<1>5. ~Moved(t) BY <1>4 DEF Moved
<1> HIDE DEF t
<1>6. buf \in [P -> P] BY DEF Inv, Typ
<1>7. Typ' BY <1>0, <1>1, <1>6 DEF Inv, Typ
<1>8. buf'[t] = cur
  <2>1. CASE t = ix BY <2>1, <1>0, <1>1, <1>3, <1>6
  <2>2. CASE t # ix BY <2>2, <1>0, <1>1, <1>3, <1>6
  <2> QED BY <2>1, <2>2
<1>9. \A q \in P : q # t /\ q # ix => buf'[q] = buf[q] BY <1>0, <1>1, <1>6
<1>10. Right'
  <2> SUFFICES ASSUME NEW p \in seen' PROVE buf'[T(p)] = p BY DEF Right
  <2>1. CASE p = cur BY <2>1, <1>8 DEF t
  <2>2. CASE p \in seen
    <3>1. buf'[T(p)] = buf[T(p)] BY <2>2, <1>4, <1>9
    <3> QED BY <3>1, <2>2 DEF Inv, Right
  <2> QED BY <1>0, <2>1, <2>2
<1>11. Rest'
  <2> SUFFICES ASSUME NEW q \in P, ~Moved(q), q # t, q # ix PROVE buf'[q] = q BY <1>0, <1>2 DEF Rest
  <2>1. buf[q] = q BY DEF Inv, Rest
  <2> QED BY <2>1, <1>9
<1>12. Before' BY <1>0 DEF Inv, Before
<1>13. Closed' /\ Done' BY <1>0 DEF Closed, Done
<1>14. t \in seen \cup {cur} => t = ix
  <2> SUFFICES ASSUME t \in seen \cup {cur}, t # ix PROVE FALSE OBVIOUS
  <2>1. CASE t \in seen
    <3>1. Moved(t) BY <2>1, <1>0 DEF Inv, Walk
    <3> QED BY <3>1, <1>5
  <2>2. CASE t = cur
    <3>1. Moved(t) BY <2>2, <1>0 DEF Inv, Walk
    <3> QED BY <3>1, <1>5
  <2> QED BY <2>1, <2>2
<1>15. ix \in seen \cup {cur}
  BY <1>0 DEF Inv, Walk
<1>16. t \notin seen \cup {cur} => t # ix BY <1>15
<1>17. t \notin seen \cup {cur} => buf'[ix] = t
  <2> SUFFICES ASSUME t \notin seen \cup {cur} PROVE buf'[ix] = t OBVIOUS
  <2>1. t # ix BY <1>16
  <2>2. buf[t] = t BY <1>1, <1>5, <2>1 DEF Inv, Rest
  <2> QED BY <2>1, <2>2, <1>0, <1>1, <1>6
<1>18. \A q \in seen' : q # ix => Moved(q)'
  <2> SUFFICES ASSUME NEW q \in seen', q # ix PROVE Moved(q)' OBVIOUS
  <2>1. CASE q \in seen BY <2>1, <1>0, <1>2 DEF Inv, Walk
  <2>2. CASE q = cur BY <2>2, <1>0, <1>2 DEF Inv, Walk
  <2> QED BY <2>1, <2>2, <1>0
<1>19. \A p \in seen' : T(p) \in seen' \cup {cur'}
  <2> SUFFICES ASSUME NEW p \in seen' PROVE T(p) \in seen' \cup {cur'} OBVIOUS
  <2>1. CASE p \in seen BY <2>1, <1>4, <1>0
  <2>2. CASE p = cur BY <2>2, <1>0 DEF t
  <2> QED BY <2>1, <2>2, <1>0
<1>20. Walk'
  <2>1. ix' \in P /\ cur' \in P BY <1>0, <1>1
  <2>2. cur' # ix' => Moved(cur)' BY <1>0, <1>2
  <2>3. cur' \notin seen' => buf'[ix'] = cur' /\ ~Moved(ix)' BY <1>0, <1>2, <1>3, <1>16, <1>17
  <2>4. cur' \in seen' => cur' = ix' /\ Moved(ix)' BY <1>0, <1>2, <1>14
  <2>5. cur' \notin seen' /\ cur' # ix' => ix' \in seen' BY <1>0, <1>15
  <2> QED BY <1>0, <1>18, <1>19, <2>1, <2>2, <2>3, <2>4, <2>5 DEF Walk
<1> QED BY <1>7, <1>10, <1>11, <1>12, <1>13, <1>20 DEF Inv

THEOREM Always == Spec => []Inv
<1>1. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
  <2>1. CASE UNCHANGED vars
    BY <2>1 DEF vars, Inv, Typ, Right, Rest, Before, Closed, Walk, Done, Moved
  <2> QED BY <2>1, ScanInv, LeaveInv, StepInv DEF Next
<1> QED BY <1>1, InitInv, PTL DEF Spec

(* no access leaves the buffer; at the end everything is where it belongs *)
THEOREM InBounds == Spec => [](pc = "walk" => ix \in P /\ cur \in P /\ T(cur) \in P)
<1>1. Inv => (pc = "walk" => ix \in P /\ cur \in P /\ T(cur) \in P) BY TType DEF Inv, Walk
<1> QED BY <1>1, Always, PTL
THEOREM Correct == Spec => [](pc = "done" => \A p \in P : buf[T(p)] = p)
<1>1. Inv => (pc = "done" => \A p \in P : buf[T(p)] = p) BY DEF Inv, Done, Right
<1> QED BY <1>1, Always, PTL
=============================================================================
