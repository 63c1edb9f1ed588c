------------------------------ MODULE TraceIter ------------------------------
(***************************************************************************)
(* Validates recorded schedules on the real iterators against IterRef.     *)
(* A line: mode, ord, nr, nc (limbs), n (argument of the nth views),       *)
(* res, grid (identities by get), mem (identities in memory order), steps  *)
(* [op, w, a, pos, val, ix, num, lens], and fin (identities at the end, in *)
(* memory order; every element handed out as &mut got +100).               *)
(* Identity of the element at memory position p is p+1; zero-sized         *)
(* elements have identity and position 0.                                  *)
(***************************************************************************)
EXTENDS IterRef, BigNat, TLC, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, k, S, handed
vars == <<sid, k, S, handed>>
C == Tr[sid]

Vectors == 0..3
RowView == {0, 2, 4, 6}
NthModes == 4..7
Mut == {2, 3, 6, 7, 9, 12}
Indexed == {11, 12, 13}

NR(c) == ToInt(c.nr)
NC(c) == ToInt(c.nc)
Huge(c) == ~IsSmall(Mul(c.nr, c.nc)) \/ ~IsSmall(c.nr) \/ ~IsSmall(c.nc)

\* memory position of the element at (i, j)
MemPos(c, i, j) == IF c.ord = 0 THEN i * NC(c) + j ELSE j * NR(c) + i
\* index of the element at memory position p
IndexOf(c, p) == IF c.ord = 0 THEN <<p \div NC(c), p % NC(c)>> ELSE <<p % NR(c), p \div NR(c)>>

OuterLenB(c) == CASE c.mode \in {0, 2} -> c.nr [] c.mode \in {1, 3} -> c.nc
                  [] c.mode \in {4, 6} -> c.nc [] c.mode \in {5, 7} -> c.nr
                  [] OTHER -> Mul(c.nr, c.nc)
InnerLenB(c) == CASE c.mode \in {0, 2} -> c.nc [] c.mode \in {1, 3} -> c.nr [] OTHER -> <<>>

\* memory position of an item handed out by iterator w
ItemPos(c, St, w, item) ==
  IF c.mode \in Vectors
  THEN LET v == St.its[w].v
       IN IF c.mode \in RowView THEN MemPos(c, v, item) ELSE MemPos(c, item, v)
  ELSE IF c.mode \in {4, 6} THEN MemPos(c, c.n, item)
  ELSE IF c.mode \in {5, 7} THEN MemPos(c, item, c.n)
  ELSE item
YieldsElements(c, w) == c.mode \notin Vectors \/ w > 0

\* exact lengths of every iterator still open
Gone == <<-1>>
OkLens(c, St, lens) ==
  /\ Len(lens) = Len(St.its) + 1
  /\ \A q \in 1..Len(lens) :
       LET it == IF q = 1 THEN [f |-> St.f, b |-> St.b, live |-> St.live] ELSE St.its[q - 1]
           n == IF q = 1 THEN OuterLenB(c) ELSE InnerLenB(c)
       IN lens[q] = IF ~it.live THEN Gone
                    ELSE IF Huge(c) THEN Sub(n, OfInt(it.f + it.b))
                    ELSE OfInt(ToInt(n) - it.f - it.b)

\* huge shapes (zero-sized elements): lengths are as good as unbounded, so
\* the model runs with a stand-in length and only front/back counts matter
StandIn == 100000000
LenM(c, n) == IF Huge(c) /\ ~IsSmall(n) THEN StandIn ELSE ToInt(n)

\* index reported for item `item` of a huge shape
BigIndex(c, item) ==
  LET back == item >= StandIn \div 2
      q == IF back THEN StandIn - 1 - item ELSE item
      m == IF c.ord = 0 THEN c.nc ELSE c.nr     \* minor length
      M == IF c.ord = 0 THEN c.nr ELSE c.nc
      maj == IF IsSmall(m) THEN q \div ToInt(m) ELSE 0
      mi == IF IsSmall(m) THEN q % ToInt(m) ELSE q
      X == IF back THEN Sub(M, OfInt(maj + 1)) ELSE OfInt(maj)
      Y == IF back THEN Sub(m, OfInt(mi + 1)) ELSE OfInt(mi)
  IN IF c.ord = 0 THEN <<X, Y>> ELSE <<Y, X>>

OkStep(c, e) ==
  LET r0 == Step(S, e.op, e.w, e.a)
      r == IF c.mode \in Vectors THEN r0 ELSE [r0 EXCEPT !.S.its = <<>>]
      elems == YieldsElements(c, e.w)
      P(q) == ItemPos(c, r.S, e.w, r.out[q])
  IN
  /\ e.res # "crash" /\ e.res # "hang" /\ e.res # "panic"
  /\ e.cnt = Len(r.out)                                        \* number of items
  /\ elems => /\ Len(e.pos) = Len(r.out)
              /\ \A q \in 1..Len(r.out) :
                   IF c.z = 1 THEN e.pos[q] = 0 /\ e.val[q] = 0
                   ELSE e.pos[q] = P(q) /\ e.val[q] = P(q) + 1
              /\ c.mode \in Indexed =>
                   /\ Len(e.ix) = Len(r.out)
                   /\ \A q \in 1..Len(r.out) :
                        e.ix[q] = IF Huge(c) THEN BigIndex(c, r.out[q])
                                  ELSE LET x == IndexOf(c, P(q)) IN <<OfInt(x[1]), OfInt(x[2])>>
  /\ e.op = "c" => e.num = OfInt(Left(IF e.w = 0 THEN S.L ELSE S.M,
                                      IF e.w = 0 THEN [f |-> S.f, b |-> S.b] ELSE S.its[e.w]))
  /\ OkLens(c, r.S, e.lens)
  /\ S' = r.S
  /\ handed' = IF elems /\ c.z = 0 THEN handed \cup {P(q) : q \in 1..Len(r.out)} ELSE handed

ValidNth(c) ==
  LET lim == IF c.mode \in {4, 6} THEN c.nr ELSE c.nc IN Less(c.nl, lim)
Count(c) == ToInt(Mul(c.nr, c.nc))
\* the matrix looked at: position by position, and through get
OkHead(c) ==
  (c.z = 0) =>
    /\ c.mem = [p \in 1..Count(c) |-> p]
    /\ c.grid = [p \in 1..Count(c) |->
                   MemPos(c, (p - 1) \div NC(c), (p - 1) % NC(c)) + 1]
OkFin(c) ==
  (c.z = 0 /\ c.mode \notin {10, 13}) =>
    c.fin = [p \in 1..Count(c) |-> IF c.mode \in Mut /\ (p - 1) \in handed THEN p + 100 ELSE p]

Init == /\ sid \in 1..Len(Tr) /\ k = 0 /\ handed = {}
        /\ S = Start(0, 0)
Open == /\ k = 0
        /\ "res" \in DOMAIN C                                     \* no crash
        /\ OkHead(C)
        /\ IF C.mode \in NthModes /\ ~ValidNth(C)
           THEN C.res = "err:IndexOutOfBounds" /\ Len(C.steps) = 0 /\ OkFin(C) /\ S' = S
           ELSE /\ C.res = "ok"
                /\ S' = Start(LenM(C, OuterLenB(C)), LenM(C, InnerLenB(C)))
                /\ C.len0 = OuterLenB(C)
        /\ k' = 1 /\ UNCHANGED <<sid, handed>>
Do == /\ k \in 1..Len(C.steps)
      /\ OkStep(C, C.steps[k])
      /\ k' = k + 1 /\ UNCHANGED sid
Close == /\ k = Len(C.steps) + 1
         /\ (C.res = "ok" => OkFin(C))
         /\ k' = k + 1 /\ UNCHANGED <<sid, S, handed>>
End == k = Len(C.steps) + 2 /\ UNCHANGED vars
Next == IF k = 0 THEN Open ELSE IF k <= Len(C.steps) THEN Do ELSE IF k = Len(C.steps) + 1 THEN Close ELSE End
=============================================================================
