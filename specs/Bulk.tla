-------------------------------- MODULE Bulk --------------------------------
(***************************************************************************)
(* Every operation as a function on coordinates: which element stands at   *)
(* (i, j) of the result, given the elements of the operands.  No sequence  *)
(* is built, so the same definitions serve matrices of any size; MCBulk    *)
(* shows that they agree with the sequence-based machine (Matreex).        *)
(*                                                                         *)
(* An operand is <<order, rows, columns, offset>>: its element at memory   *)
(* position p (from 0) has value p + offset.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences

Min(a, b) == IF a < b THEN a ELSE b
\* memory position of (i, j), and back
Flat(o, r, c, i, j) == IF o = 0 THEN i * c + j ELSE j * r + i
Row(o, r, c, p) == IF o = 0 THEN p \div c ELSE p % r
Col(o, r, c, p) == IF o = 0 THEN p % c ELSE p \div r

At(m, i, j) == Flat(m[1], m[2], m[3], i, j) + m[4]
Swapped(n, x, y) == IF n = x THEN y ELSE IF n = y THEN x ELSE n

RECURSIVE Dot(_, _, _, _, _, _)
Dot(m, b, i, j, k, acc) ==
  IF k = m[3] THEN acc
  ELSE Dot(m, b, i, j, k + 1,
           acc + ((At(m, i, k) % 5) + 1) * ((At(b, k, j) % 3) + 1))

\* result <<order, rows, columns>> of an operation that succeeds
Header(op, m, b, x, y) ==
  CASE op = 0 -> <<m[1], m[3], m[2]>>
    [] op = 1 -> <<1 - m[1], m[2], m[3]>>
    [] op = 2 -> <<1 - m[1], m[3], m[2]>>
    [] op = 3 -> <<b[1], m[2], m[3]>>
    [] op = 4 -> IF b[1] = m[1] THEN <<m[1], m[2], m[3]>> ELSE <<b[1], m[3], m[2]>>
    [] op \in {5, 6} -> <<m[1], b[2], b[3]>>
    [] op = 22 -> <<m[1], m[2], b[3]>>
    [] OTHER -> <<m[1], m[2], m[3]>>

\* value at (i, j) of the result
Value(op, m, b, x, y, i, j) ==
  CASE op = 0 -> At(m, j, i)
    [] op \in {1, 3} -> At(m, i, j)
    [] op \in {2, 4} -> IF op = 4 /\ b[1] = m[1] THEN At(m, i, j) ELSE At(m, j, i)
    [] op \in {5, 6} -> LET p == Flat(m[1], b[2], b[3], i, j)
                        IN IF p < m[2] * m[3] THEN p + m[4] ELSE 0
    [] op = 7 -> IF i < b[2] /\ j < b[3] THEN At(b, i, j) ELSE At(m, i, j)
    [] op = 8 -> At(m, Swapped(i, x, y), j)
    [] op = 9 -> At(m, i, Swapped(j, x, y))
    [] op = 10 -> LET q == Swapped(i * m[3] + j, x, y) IN At(m, q \div m[3], q % m[3])
    [] op \in {11, 12, 13, 14, 15, 16} -> 3 * At(m, i, j) + 1
    [] op = 20 -> 2 * At(m, i, j) + At(b, i, j)
    [] op = 21 -> 2 * At(m, i, j) + x
    [] op = 22 -> Dot(m, b, i, j, 0, 0)
    [] op = 33 -> IF y \in 0..6 THEN At(m, i, j) - At(b, i, j)
                  ELSE IF y \in {7, 8} THEN - At(m, i, j)
                  ELSE IF y \in {9, 10, 13, 14} THEN At(m, i, j) - x
                  ELSE IF y \in {11, 12} THEN x - At(m, i, j)
                  ELSE x * At(m, i, j)
    [] OTHER -> At(m, i, j)

\* "ok", or the error an operation must report
Result(op, m, b, x, y) ==
  CASE op = 5 -> IF b[2] * b[3] = m[2] * m[3] THEN "ok" ELSE "SizeMismatch"
    [] op = 8 -> IF x < m[2] /\ y < m[2] THEN "ok" ELSE "IndexOutOfBounds"
    [] op = 9 -> IF x < m[3] /\ y < m[3] THEN "ok" ELSE "IndexOutOfBounds"
    [] op = 10 -> IF x < m[2] * m[3] /\ y < m[2] * m[3] THEN "ok" ELSE "IndexOutOfBounds"
    [] op = 20 -> IF m[2] = b[2] /\ m[3] = b[3] THEN "ok" ELSE "ShapeNotConformable"
    [] op = 22 -> IF m[3] = b[2] THEN "ok" ELSE "ShapeNotConformable"
    [] op = 24 -> IF x < (IF y % 2 = 0 THEN m[2] ELSE m[3]) THEN "ok" ELSE "IndexOutOfBounds"
    [] OTHER -> "ok"

\* how many elements the operation clones and drops: <<clones, drops>>
Traffic(op, m, b) ==
  LET n == m[2] * m[3]
      ov == Min(m[2], b[2]) * Min(m[3], b[3])
  IN CASE op = 6 -> <<0, IF b[2] * b[3] < n THEN n - b[2] * b[3] ELSE 0>>
       [] op = 7 -> <<ov, ov>>
       [] op = 17 -> <<n, 0>>
       [] op = 18 -> <<n, b[2] * b[3]>>
       [] OTHER -> <<0, 0>>
=============================================================================
