------------------------------ MODULE RefModel ------------------------------
(***************************************************************************)
(* The plain row-of-rows reference model: a matrix is its rows, plus the   *)
(* storage order for the operations that are *defined* on the memory-order *)
(* sequence.  Written independently of the flat-index arithmetic of        *)
(* Matreex; MCHist checks that Matreex!Apply refines it.                   *)
(***************************************************************************)
EXTENDS Matreex

\* a reference matrix: [ord, nr, nc, rows], rows a sequence of nr rows
Abs(m) == [ord |-> m.ord, nr |-> m.nr, nc |-> m.nc, rows |-> Rows(m)]

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Cols(R) == [j \in 1..R.nc |-> [i \in 1..R.nr |-> R.rows[i][j]]]
\* memory order: rows one after the other, or columns one after the other
Lin(R) == IF R.ord = 0 THEN Concat(R.rows) ELSE Concat(Cols(R))
FromLin(s, o, r, c) ==
  [ord |-> o, nr |-> r, nc |-> c,
   rows |-> IF o = 0
            THEN [i \in 1..r |-> SubSeq(s, (i - 1) * c + 1, i * c)]
            ELSE LET cols == [j \in 1..c |-> SubSeq(s, (j - 1) * r + 1, j * r)]
                 IN [i \in 1..r |-> [j \in 1..c |-> cols[j][i]]]]

RTrans(R) == [ord |-> R.ord, nr |-> R.nc, nc |-> R.nr, rows |-> Cols(R)]
RMap(R, F(_)) == [R EXCEPT !.rows = [i \in 1..R.nr |-> [j \in 1..R.nc |-> F(R.rows[i][j])]]]
RZip(R, S, F(_, _)) ==
  [R EXCEPT !.rows = [i \in 1..R.nr |-> [j \in 1..R.nc |-> F(R.rows[i][j], S.rows[i][j])]]]
RECURSIVE RDot(_, _, _, _, _)
RDot(R, S, i, j, k) ==
  IF k = 0 THEN 0
  ELSE FAdd(FMul(R.rows[i][k][2], S.rows[k][j][2]), RDot(R, S, i, j, k - 1))

\* the slot an operation writes its main result to, and that result,
\* for an operation that succeeds in world W
RefResult(W, e) ==
  LET a == e.a
      R(k) == Abs(W[a[k] + 1])
      fresh(v) == <<0, v>>
  IN
  CASE e.op = "transpose" -> [d |-> a[1], R |-> RTrans(R(1))]
    [] e.op = "sw" -> [d |-> a[1], R |-> [R(1) EXCEPT !.ord = 1 - @]]
    [] e.op = "so" -> [d |-> a[1], R |-> [R(1) EXCEPT !.ord = a[2]]]
    [] e.op = "sww" -> [d |-> a[1], R |-> FromLin(Lin(R(1)), 1 - R(1).ord, R(1).nc, R(1).nr)]
    [] e.op = "sow" -> [d |-> a[1], R |-> IF R(1).ord = a[2] THEN R(1)
                          ELSE FromLin(Lin(R(1)), a[2], R(1).nc, R(1).nr)]
    [] e.op = "reshape" -> [d |-> a[1], R |-> FromLin(Lin(R(1)), R(1).ord, a[2], a[3])]
    [] e.op = "resize" ->
         LET old == Lin(R(1))  n == a[2] * a[3]
             s == IF n <= Len(old) THEN SubSeq(old, 1, n)
                  ELSE old \o [k \in 1..(n - Len(old)) |-> <<0, 0>>]
         IN [d |-> a[1], R |-> FromLin(s, R(1).ord, a[2], a[3])]
    [] e.op = "clear" -> [d |-> a[1], R |-> [ord |-> R(1).ord, nr |-> 0, nc |-> 0, rows |-> <<>>]]
    [] e.op = "swap" ->
         LET q == R(1)
             x == IF a[2] = 4 THEN <<a[3] % q.nr, a[4] % q.nc>> ELSE <<a[3], a[4]>>
             y == IF a[5] = 4 THEN <<a[6] % q.nr, a[7] % q.nc>> ELSE <<a[6], a[7]>>
             ex == q.rows[x[1] + 1][x[2] + 1]
             ey == q.rows[y[1] + 1][y[2] + 1]
         IN [d |-> a[1], R |-> [q EXCEPT !.rows = [i \in 1..q.nr |-> [j \in 1..q.nc |->
                 IF <<i - 1, j - 1>> = x THEN ey ELSE IF <<i - 1, j - 1>> = y THEN ex
                 ELSE q.rows[i][j]]]]]
    [] e.op = "swap_rows" ->
         LET q == R(1) IN
         [d |-> a[1], R |-> [q EXCEPT !.rows = [@ EXCEPT ![a[2] + 1] = q.rows[a[3] + 1],
                                                        ![a[3] + 1] = q.rows[a[2] + 1]]]]
    [] e.op = "swap_cols" ->
         LET t == RTrans(R(1)) IN
         [d |-> a[1], R |-> [RTrans([t EXCEPT !.rows = [@ EXCEPT ![a[2] + 1] = t.rows[a[3] + 1],
                                                               ![a[3] + 1] = t.rows[a[2] + 1]]])
                              EXCEPT !.ord = R(1).ord]]
    [] e.op = "overwrite" ->
         LET q == R(1)  s == R(2) IN
         [d |-> a[1], R |-> [q EXCEPT !.rows = [i \in 1..q.nr |-> [j \in 1..q.nc |->
              IF i <= Min(q.nr, s.nr) /\ j <= Min(q.nc, s.nc) THEN fresh(s.rows[i][j][2])
              ELSE q.rows[i][j]]]]]
    [] e.op \in {"apply", "par_apply"} ->
         LET F(x) == <<x[1], FApply(x[2])>> IN [d |-> a[1], R |-> RMap(R(1), F)]
    [] e.op = "map" ->
         LET F(x) == <<IF a[3] \in {0, 3, 4} THEN 0 ELSE x[1], FMap(x[2])>>
         IN [d |-> a[2], R |-> RMap(R(1), F)]
    [] e.op = "mapref" ->
         LET F(x) == <<0, IF a[3] = 1 THEN x[2] ELSE FMap(x[2])>> IN [d |-> a[2], R |-> RMap(R(1), F)]
    [] e.op = "clone" -> LET F(x) == fresh(x[2]) IN [d |-> a[2], R |-> RMap(R(1), F)]
    [] e.op = "clone_from" -> LET F(x) == fresh(x[2]) IN [d |-> a[1], R |-> RMap(R(2), F)]
    [] e.op = "neg" -> LET F(x) == fresh(FNeg(x[2])) IN [d |-> a[2], R |-> RMap(R(1), F)]
    [] e.op = "sc" ->
         LET F(x) == <<IF a[3] = 2 THEN x[1] ELSE 0, FScalar(x[2], a[4])>>
         IN [d |-> IF a[3] = 2 THEN a[1] ELSE a[2], R |-> RMap(R(1), F)]
    [] e.op = "ew" ->
         LET keep == a[5] \in {2, 7, 8}
             F(x, y) == <<IF keep THEN x[1] ELSE 0, FOp(a[4], x[2], y[2])>>
         IN [d |-> IF keep THEN a[1] ELSE a[3], R |-> RZip(R(1), R(2), F)]
    [] e.op = "ewg" ->
         LET keep == a[4] \in {2, 3}
             F(x, y) == <<IF keep THEN x[1] ELSE 0,
                          CHOOSE k \in 1..Len(e.ret) : e.ret[k] = <<x[1], y[1]>> >>
         IN [d |-> IF a[4] = 3 THEN a[1] ELSE a[3], R |-> RZip(R(1), R(2), F)]
    [] e.op = "mul" ->
         LET q == R(1)  s == R(2) IN
         [d |-> a[3], R |-> [ord |-> q.ord, nr |-> q.nr, nc |-> s.nc,
              rows |-> [i \in 1..q.nr |-> [j \in 1..s.nc |-> fresh(RDot(q, s, i, j, q.nc))]]]]
    [] e.op = "like" ->
         LET q == R(1)  s == R(2)  c == Cols(s)
             ids(v) == [k \in 1..Len(v) |-> v[k][1]]
         IN [d |-> a[3], R |-> [ord |-> q.ord, nr |-> q.nr, nc |-> s.nc,
              rows |-> [i \in 1..q.nr |-> [j \in 1..s.nc |->
                 fresh(IF q.nc = 0 THEN 0
                       ELSE CHOOSE k \in 1..Len(e.ret) : e.ret[k] = <<ids(q.rows[i]), ids(c[j])>>)]]]]
    [] e.op \in {"set", "setx"} ->
         [d |-> a[1], R |-> [R(1) EXCEPT !.rows[a[2] + 1][a[3] + 1] = fresh(a[4])]]
    [] e.op = "itermut" ->
         LET q == IF a[2] = 0 THEN R(1) ELSE [RTrans(R(1)) EXCEPT !.ord = R(1).ord]
             back(i, n) == n + 1 - i
             g(i, j) == <<q.rows[i][j][1],
                          (100 + 10 * ((IF a[3] = 2 THEN back(i, q.nr) ELSE i) - 1)
                               + ((IF a[3] >= 1 THEN back(j, q.nc) ELSE j) - 1)) % MODN>>
             z == [q EXCEPT !.rows = [i \in 1..q.nr |-> [j \in 1..q.nc |-> g(i, j)]]]
         IN [d |-> a[1], R |-> IF a[2] = 0 THEN z ELSE [RTrans(z) EXCEPT !.ord = R(1).ord]]
    [] e.op \in {"new", "default", "with_capacity"} ->
         [d |-> a[1], R |-> [ord |-> 0, nr |-> 0, nc |-> 0, rows |-> <<>>]]
    [] e.op \in {"with_default", "with_value"} ->
         LET v == IF e.op = "with_value" THEN a[5] ELSE 0 IN
         [d |-> a[1], R |-> [ord |-> 0, nr |-> a[2], nc |-> a[3],
                 rows |-> [i \in 1..a[2] |-> [j \in 1..a[3] |-> fresh(v)]]]]
    [] e.op = "with_init" ->
         [d |-> a[1], R |-> [ord |-> 0, nr |-> a[2], nc |-> a[3],
                 rows |-> [i \in 1..a[2] |-> [j \in 1..a[3] |->
                      fresh(CHOOSE k \in 1..Len(e.ret) : e.ret[k] = <<i - 1, j - 1>>)]]]]
    [] OTHER -> [d |-> -1, R |-> <<>>]

\* the refinement obligation for one call with outcome x
Refines(W, e, x) ==
  LET r == RefResult(W, e) IN
  (x.res = "ok" /\ r.d # -1) => Abs(x.W[r.d + 1]) = r.R

MovesOnly == {"transpose", "sw", "sww", "so", "sow", "reshape", "swap", "swap_rows", "swap_cols",
              "apply", "par_apply", "itermut", "shrink", "shrink_to"}
ReadOnly == {"eq", "eqself", "conf", "contains", "get", "index", "iter", "nth", "elems", "fmt"}
InPlaceFallible == {"reshape", "resize", "swap", "swap_rows", "swap_cols"}

Laws(W, e, x) ==
  /\ \A n \in 1..Len(W) : (n - 1) \notin Writes(e) => x.W[n] = W[n]
  /\ \A n \in 1..Len(W) : Coherent(x.W[n])
  /\ e.op \in MovesOnly => Ids(x.W) = Ids(W)
  /\ e.op \in ReadOnly => x.W = W
  /\ (x.res # "ok" /\ e.op \in InPlaceFallible) => x.W = W
  /\ (x.res # "ok" /\ e.op = "ew" /\ e.a[5] \in {0, 2, 6, 8}) => x.W = W
  /\ e.op = "transpose" /\ x.res = "ok" =>          \* an involution
       Transposed(x.W[e.a[1] + 1]) = W[e.a[1] + 1]
  /\ e.op = "sw" /\ x.res = "ok" => SameLogical(W[e.a[1] + 1], x.W[e.a[1] + 1])
  /\ e.op = "sww" /\ x.res = "ok" =>
       /\ x.W[e.a[1] + 1].mem = W[e.a[1] + 1].mem
       /\ SameLogical([Transposed(W[e.a[1] + 1]) EXCEPT !.ord = @], x.W[e.a[1] + 1])
=============================================================================
