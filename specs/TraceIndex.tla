----------------------------- MODULE TraceIndex -----------------------------
(***************************************************************************)
(* Validates real element accesses (C04, C13).  A line is one matrix, one  *)
(* index type and one form of access, with many queries                    *)
(*   <<rows, cols, neg, code, pos, val, chg>>                              *)
(* rows, cols: what the index value said (for changing accessors, what     *)
(* each call of row()/col() returned), as limbs; neg: signs (wrapping);    *)
(* code 0 an element, 1 IndexOutOfBounds, 2 panic; pos, val: memory        *)
(* position and identity of the element; chg: elements that differ after   *)
(* the access (the exclusive forms write 101+p to the element at p).       *)
(***************************************************************************)
EXTENDS BigNat, TLC, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, k
vars == <<sid, k>>

Excl == {1, 3, 5, 7, 10, 13}
Panicking == {2, 3, 6, 7}
Unchecked == {9, 10, 12, 13}
Tests == {8, 11}                     \* bounds tests only

\* a mod n for a divisor below 2^18 (elements of larger shapes are zero-sized)
RECURSIVE ModC(_, _, _)
ModC(a, n, q) == IF q = 0 THEN 0 ELSE (ModC(Tail(a), n, q - 1) * 4096 + a[1]) % n
Mod(a, n) == ModC(a, n, Len(a))
\* the mathematical remainder of a signed number
WMod(a, neg, n) == LET r == Mod(a, n) IN IF neg = 1 /\ r # 0 THEN n - r ELSE r

\* memory position of the element at (r, c)
FlatPos(x, r, c) == IF x.ord = 0 THEN r * ToInt(x.nc) + c ELSE c * ToInt(x.nr) + r
Empty(x) == x.nr = <<>> \/ x.nc = <<>>

Hit(x, q, r, c) ==
  /\ q[4] = 0
  /\ IF x.form \in Tests THEN q[7] = <<>>
     ELSE IF x.z = 1 THEN q[5] = 0 /\ q[6] = 0 /\ q[7] = <<>>
     ELSE LET p == FlatPos(x, r, c)
          IN /\ q[5] = p /\ q[6] = p + 1
             /\ q[7] = IF x.form \in Excl THEN << <<p, p + 101>> >> ELSE <<>>
Miss(x, q) == /\ q[4] = IF x.form \in Panicking THEN 2 ELSE 1
              /\ q[7] = <<>>

OkPlain(x, q) ==
  LET in == Less(q[1][1], x.nr) /\ Less(q[2][1], x.nc)
  IN IF in THEN Hit(x, q, IF x.z = 1 THEN 0 ELSE ToInt(q[1][1]), IF x.z = 1 THEN 0 ELSE ToInt(q[2][1]))
     ELSE x.form \notin Unchecked /\ Miss(x, q)
OkChanging(x, q) ==
  \/ \E a \in 1..Len(q[1]), b \in 1..Len(q[2]) :
        /\ Less(q[1][a], x.nr) /\ Less(q[2][b], x.nc)
        /\ Hit(x, q, IF x.z = 1 THEN 0 ELSE ToInt(q[1][a]), IF x.z = 1 THEN 0 ELSE ToInt(q[2][b]))
  \/ /\ \/ \E a \in 1..Len(q[1]) : ~Less(q[1][a], x.nr)
        \/ \E b \in 1..Len(q[2]) : ~Less(q[2][b], x.nc)
     /\ Miss(x, q)
\* swap: the elements at two named positions in range are exchanged, nothing
\* else; an error changes nothing and means that a position out of range was
\* named (form 14: the first element and this index, 15: this index and the
\* last element, 16: two indices with the same accessors)
Exchange(x, f, p) == IF x.z = 1 \/ f = p THEN <<>>
                     ELSE LET a == IF f < p THEN f ELSE p  b == IF f < p THEN p ELSE f
                          IN << <<a, b + 1>>, <<b, a + 1>> >>
Swaps == {14, 15, 16}
Pos(x, a, b) == IF x.z = 1 THEN 0 ELSE FlatPos(x, ToInt(a), ToInt(b))
Named(x, q) == {Pos(x, q[1][a], q[2][b]) : <<a, b>> \in {<<i, j>> \in (1..Len(q[1])) \X (1..Len(q[2])) :
                                                         Less(q[1][i], x.nr) /\ Less(q[2][j], x.nc)}}
OkSwap(x, q) ==
  \/ /\ q[4] = 0
     /\ LET N == Named(x, q)
            O == IF x.form = 16 THEN N ELSE IF x.form = 14 \/ x.z = 1 THEN {0} ELSE {ToInt(x.nr) * ToInt(x.nc) - 1}
        IN \E f \in O, p \in N : q[7] = Exchange(x, f, p)
  \/ /\ q[4] = 1 /\ q[7] = <<>>
     /\ \/ \E a \in 1..Len(q[1]) : ~Less(q[1][a], x.nr)
        \/ \E b \in 1..Len(q[2]) : ~Less(q[2][b], x.nc)
        \/ Empty(x)
OkWrapping(x, q) ==
  IF Empty(x)
  THEN /\ q[7] = <<>>
       /\ q[4] = IF x.form \in Panicking \cup Unchecked THEN 2 ELSE 1
  ELSE IF x.z = 1 THEN Hit(x, q, 0, 0)
  ELSE Hit(x, q, WMod(q[1][1], q[3][1], ToInt(x.nr)), WMod(q[2][1], q[3][2], ToInt(x.nc)))

Accept(x) ==
  /\ "q" \in DOMAIN x                      \* no crash
  /\ \A n \in 1..Len(x.q) :
       LET q == x.q[n]
           ok == CASE x.form \in Swaps -> OkSwap(x, q)
                   [] x.kind = 4 -> OkWrapping(x, q)
                   [] x.kind = 5 -> OkChanging(x, q)
                   [] OTHER -> OkPlain(x, q)
       IN IF ok THEN TRUE ELSE PrintT(<<"QUERY", n, q>>) /\ FALSE

Init == sid \in 1..Len(Tr) /\ k = 1
Next == \/ k = 1 /\ Accept(Tr[sid]) /\ k' = 2 /\ UNCHANGED sid
        \/ k = 2 /\ UNCHANGED vars
=============================================================================
