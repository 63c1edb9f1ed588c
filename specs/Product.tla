------------------------------- MODULE Product -------------------------------
(***************************************************************************)
(* The textbook matrix product.  Factors are symbols: the lhs element at   *)
(* (i, k) is i * lc + k + 1, the rhs element at (k, j) is k * rc + j + 1.  *)
(* An entry of the product is the bag of its factor pairs.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

LId(c, i, k) == i * c.lc + k + 1
RId(c, k, j) == k * c.rc + j + 1

\* position p (1-based) of the result in memory: its row and column
RowOf(c, p) == IF c.lo = 0 THEN (p - 1) \div c.rc ELSE (p - 1) % c.lr
ColOf(c, p) == IF c.lo = 0 THEN (p - 1) % c.rc ELSE (p - 1) \div c.lr

SetOf(s) == {s[k] : k \in 1..Len(s)}
Pairs(c, i, j) == {<<LId(c, i, k), RId(c, k, j)>> : k \in 0..(c.lc - 1)}
\* each k once, lhs factor on the left; no summand besides the products
Entry(c, i, j, terms) ==
  IF c.lc = 0 THEN terms = << <<-1, -1>> >>                \* U::default()
  ELSE Len(terms) = c.lc /\ SetOf(terms) = Pairs(c, i, j)

LineL(c, i) == [k \in 1..c.lc |-> LId(c, i, k - 1)]
LineR(c, j) == [k \in 1..c.rr |-> RId(c, k - 1, j)]

\* primitive operands
PL(i, j) == (i * 3 + j * 5 + 1) % 4
PR(i, j) == (i * 7 + j * 2 + 2) % 4
RECURSIVE Dot(_, _, _)
Dot(i, j, k) == IF k = 0 THEN 0 ELSE Dot(i, j, k - 1) + PL(i, k - 1) * PR(k - 1, j)

Conf(c) == c.lc = c.rr

\* an operand taken by reference is what it was
Kept(m, o, r, n, Id(_, _)) ==
  /\ m.ord = o /\ m.nr = r /\ m.nc = n /\ Len(m.mem) = r * n
  /\ \A p \in 1..(r * n) :
       m.mem[p] = IF o = 0 THEN Id((p - 1) \div n, (p - 1) % n) ELSE Id((p - 1) % r, (p - 1) \div r)

Operands(c) ==
  /\ ("lk" \in DOMAIN c) => LET I(i, j) == LId(c, i, j) IN Kept(c.lk, c.lo, c.lr, c.lc, I)
  /\ ("rk" \in DOMAIN c) => LET I(i, j) == RId(c, i, j) IN Kept(c.rk, c.ro, c.rr, c.rc, I)

Accept(c) ==
  IF "steps" \in DOMAIN c THEN FALSE                       \* crash or hang
  ELSE IF ~Conf(c)
    THEN c.res = IF c.form \in {0, 5} THEN "err:ShapeNotConformable" ELSE "panic"
  ELSE
    /\ c.res = "ok"
    /\ c.ro_ = c.lo /\ c.rnr = c.lr /\ c.rnc = c.rc
    /\ c.rsz = c.lr * c.rc /\ Len(c.mem) = c.lr * c.rc
    /\ Operands(c)
    /\ IF c.kind >= 10
         THEN \A p \in 1..Len(c.mem) : c.mem[p] = Dot(RowOf(c, p), ColOf(c, p), c.lc)
       ELSE IF c.form = 5
         THEN IF c.lc = 0
                THEN c.log = <<>> /\ \A p \in 1..Len(c.mem) : c.mem[p] = -1
                ELSE /\ Len(c.log) = c.lr * c.rc
                     /\ \A p \in 1..Len(c.mem) :
                          /\ c.mem[p] \in 1..Len(c.log)
                          /\ c.log[c.mem[p]] = <<LineL(c, RowOf(c, p)), LineR(c, ColOf(c, p))>>
                     \* every position called its own closure invocation
                     /\ Cardinality(SetOf(c.mem)) = Len(c.mem)
       ELSE \A p \in 1..Len(c.mem) : Entry(c, RowOf(c, p), ColOf(c, p), c.mem[p])
=============================================================================
