------------------------------ MODULE MCProduct ------------------------------
(***************************************************************************)
(* Design model of multiply: both operands are re-laid (lhs row-major, rhs *)
(* column-major), then the result is pushed element by element in the      *)
(* order of lhs, each from two contiguous slices.  Checked against Product *)
(* for every shape up to MaxDim, every storage order of both operands and  *)
(* every prefix of the loop.                                               *)
(***************************************************************************)
EXTENDS Product, TLC
CONSTANT MaxDim
VARIABLES c, data, n
vars == <<c, data, n>>

D == 0..MaxDim
Init == /\ \E lr \in D, lc \in D, rc \in D, lo \in {0, 1}, ro \in {0, 1} :
             c = [lr |-> lr, lc |-> lc, rr |-> lc, rc |-> rc, lo |-> lo, ro |-> ro]
        /\ data = <<>> /\ n = 0

\* memory of an r x q matrix in order o, and re-laying it
Mem(o, r, q, Id(_, _)) ==
  [p \in 1..(r * q) |-> IF o = 0 THEN Id((p - 1) \div q, (p - 1) % q) ELSE Id((p - 1) % r, (p - 1) \div r)]
Relay(m, o, o2, r, q) ==
  IF o = o2 THEN m
  ELSE [p \in 1..(r * q) |->
          LET i == IF o2 = 0 THEN (p - 1) \div q ELSE (p - 1) % r
              j == IF o2 = 0 THEN (p - 1) % q ELSE (p - 1) \div r
          IN m[(IF o = 0 THEN i * q + j ELSE j * r + i) + 1]]
Slice(m, stride, k) == SubSeq(m, k * stride + 1, (k + 1) * stride)

L(i, j) == LId(c, i, j)
R(i, j) == RId(c, i, j)
LM == Relay(Mem(c.lo, c.lr, c.lc, L), c.lo, 0, c.lr, c.lc)
RM == Relay(Mem(c.ro, c.rr, c.rc, R), c.ro, 1, c.rr, c.rc)

Step ==
  /\ n < c.lr * c.rc
  /\ LET i == IF c.lo = 0 THEN n \div c.rc ELSE n % c.lr
         j == IF c.lo = 0 THEN n % c.rc ELSE n \div c.lr
         x == Slice(LM, c.lc, i)
         y == Slice(RM, c.rr, j)
         terms == IF c.lc = 0 THEN << <<-1, -1>> >> ELSE [k \in 1..c.lc |-> <<x[k], y[k]>>]
     IN data' = Append(data, terms)
  /\ n' = n + 1 /\ UNCHANGED c
Next == Step

Textbook == \A p \in 1..Len(data) : Entry(c, RowOf(c, p), ColOf(c, p), data[p])
=============================================================================
