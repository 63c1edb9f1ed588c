------------------------------- MODULE Matreex -------------------------------
(***************************************************************************)
(* The abstract machine of the matrix library.                             *)
(*                                                                         *)
(* A world is a sequence of slots.  A slot holds a matrix or nothing; a    *)
(* matrix is a storage order (0 row-major, 1 column-major), a logical      *)
(* shape and its elements in memory order.  An element is <<id, val>>; in  *)
(* an *expected* matrix id 0 stands for "an element created by this very   *)
(* call".  Apply(T, W, e) is the outcome of one public call: the result    *)
(* ("ok", "err:<name>", "panic", "skip"), the returned observation and     *)
(* the world after the call.  T describes the element type:                *)
(* T.z (1: zero-sized), T.es (size in bytes), T.dg (1: has drop glue),      *)
(* T.nq (1: no element equals any other, not even itself).                  *)
(*                                                                         *)
(* Calls whose outcome legitimately depends on the order in which the      *)
(* library calls a closure take that order from the observation e.ret (the *)
(* closure's own argument log), after RetOK has checked that the log is a  *)
(* permutation of the calls the property demands.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

MODN == 997

\* ------------------------------------------------------------- matrices
NoM == [ord |-> -1, nr |-> 0, nc |-> 0, mem |-> <<>>]
Mat(o, r, c, s) == [ord |-> o, nr |-> r, nc |-> c, mem |-> s]
Has(m) == m.ord # -1
Size(m) == Len(m.mem)

\* position in memory order (0-based) of logical (i, j)
Flat(o, r, c, i, j) == IF o = 0 THEN i * c + j ELSE j * r + i
At(m, i, j) == m.mem[Flat(m.ord, m.nr, m.nc, i, j) + 1]
\* logical coordinates of the p-th (1-based) element in memory order
RowAt(m, p) == IF m.ord = 0 THEN (p - 1) \div m.nc ELSE (p - 1) % m.nr
ColAt(m, p) == IF m.ord = 0 THEN (p - 1) % m.nc ELSE (p - 1) \div m.nr

Build(o, r, c, F(_, _)) ==
  Mat(o, r, c, [p \in 1..(r * c) |->
        IF o = 0 THEN F((p - 1) \div c, (p - 1) % c)
                 ELSE F((p - 1) % r, (p - 1) \div r)])

Coherent(m) == Has(m) => m.ord \in {0, 1} /\ m.nr * m.nc = Len(m.mem)

\* the plain row-of-rows view
Rows(m) == [i \in 1..m.nr |-> [j \in 1..m.nc |-> At(m, i - 1, j - 1)]]
Val(x) == x[2]
SameLogical(m, n) ==
  /\ m.nr = n.nr /\ m.nc = n.nc
  /\ \A i \in 0..(m.nr - 1) : \A j \in 0..(m.nc - 1) : Val(At(m, i, j)) = Val(At(n, i, j))

\* the elements' own equality: NaN is unequal to everything, itself included
NaN == 990
EqVal(x, y) == x = y /\ x # NaN
EqLogical(T, m, n) ==
  /\ m.nr = n.nr /\ m.nc = n.nc
  /\ T.nq = 1 => Size(m) = 0
  /\ T.z = 1 \/ \A i \in 0..(m.nr - 1) : \A j \in 0..(m.nc - 1) :
                   EqVal(Val(At(m, i, j)), Val(At(n, i, j)))

Ids(W) == UNION {{W[k].mem[p][1] : p \in 1..Len(W[k].mem)} : k \in 1..Len(W)}
RECURSIVE Total(_, _)
Total(W, k) == IF k = 0 THEN 0 ELSE Len(W[k].mem) + Total(W, k - 1)

\* ------------------------------------------------------------- outcomes
Ok(W) == [res |-> "ok", W |-> W, ret |-> <<>>]
OkR(W, r) == [res |-> "ok", W |-> W, ret |-> r]
Err(W, n) == [res |-> "err:" \o n, W |-> W, ret |-> <<>>]
Panic(W) == [res |-> "panic", W |-> W, ret |-> <<>>]
Put(W, k, m) == [W EXCEPT ![k + 1] = m]
Clr(W, k) == Put(W, k, NoM)

B(b) == IF b THEN 1 ELSE 0
Min(x, y) == IF x < y THEN x ELSE y
Max(x, y) == IF x > y THEN x ELSE y

\* ---------------------------------------------- caller supplied functions
FAdd(x, y) == (x + y) % MODN
FSub(x, y) == (x - y) % MODN
FMul(x, y) == (3 * x + 5 * y + x * y) % MODN
FDiv(x, y) == (11 * x + 13 * y + 5) % MODN
FRem(x, y) == (17 * x + 19 * y + 7) % MODN
FOp(n, x, y) == CASE n = 1 -> FAdd(x, y) [] n = 2 -> FSub(x, y) [] n = 3 -> FMul(x, y)
                  [] n = 4 -> FDiv(x, y) [] n = 5 -> FRem(x, y)
FApply(x) == (3 * x + 1) % MODN
FMap(x) == (5 * x + 2) % MODN
FScalar(x, s) == (7 * x + 3 * s + 1) % MODN
FNeg(x) == (MODN - x) % MODN

\* ------------------------------------------------------ requested shapes
(* Arguments are naturals or sentinels for huge values:
   -1 = usize::MAX, -2 = 2^63, -4 = isize::MAX, -5 = 2^32, -6 = usize::MAX - 1 *)
OverflowBy(x, k) ==       \* sentinel x times k >= 2 exceeds usize::MAX
  CASE x \in {-1, -2, -6} -> TRUE
    [] x = -4 -> k >= 3
    [] OTHER -> FALSE
Request(r, c) ==          \* "n" (a size), "cap" (huge size), "size" (overflow)
  CASE r = 0 \/ c = 0 -> [k |-> "n", n |-> 0]
    [] r > 0 /\ c > 0 -> [k |-> "n", n |-> r * c]
    [] r < 0 /\ c < 0 -> [k |-> "size", n |-> 0]
    [] r < 0 /\ c > 0 -> [k |-> IF c >= 2 /\ OverflowBy(r, c) THEN "size" ELSE "cap", n |-> 0]
    [] OTHER -> [k |-> IF r >= 2 /\ OverflowBy(c, r) THEN "size" ELSE "cap", n |-> 0]

\* --------------------------------------------------------------- indices
InB(m, i, j) == i >= 0 /\ j >= 0 /\ i < m.nr /\ j < m.nc
\* index kinds 0..3 plain, 4 wrapping
Resolves(m, k, i, j) == IF k = 4 THEN Size(m) > 0 ELSE InB(m, i, j)
Res(m, k, i, j) == IF k = 4 THEN Flat(m.ord, m.nr, m.nc, i % m.nr, j % m.nc)
                             ELSE Flat(m.ord, m.nr, m.nc, i, j)

\* ------------------------------------------------------------ operations
V(T, x) == IF T.z = 1 THEN 0 ELSE x       \* zero-sized elements carry no value

Transposed(m) == LET F(i, j) == At(m, j, i) IN Build(m.ord, m.nc, m.nr, F)
Switched(m) == LET F(i, j) == At(m, i, j) IN Build(1 - m.ord, m.nr, m.nc, F)
Relabelled(m) == Mat(1 - m.ord, m.nc, m.nr, m.mem)
SwapMem(m, x, y) ==
  Mat(m.ord, m.nr, m.nc,
      [p \in 1..Len(m.mem) |-> IF p = x + 1 THEN m.mem[y + 1]
                               ELSE IF p = y + 1 THEN m.mem[x + 1] ELSE m.mem[p]])
SwapLine(m, axis, x, y) ==
  LET S(k) == IF k = x THEN y ELSE IF k = y THEN x ELSE k
      F(i, j) == IF axis = 0 THEN At(m, S(i), j) ELSE At(m, i, S(j))
  IN Build(m.ord, m.nr, m.nc, F)

Filled(T, r, c, v) == Mat(0, r, c, [p \in 1..(r * c) |-> <<0, V(T, v)>>])

\* with_default / with_value
Constr(T, W, d, r, c, v) ==
  LET q == Request(r, c) IN
  IF q.k = "size" THEN Err(W, "SizeOverflow")
  ELSE IF q.k = "cap" THEN Err(W, "CapacityOverflow")
  ELSE Ok(Put(W, d, Filled(T, r, c, v)))

\* every element of m mapped to a fresh element with value G(val)
Fresh(T, m, G(_)) ==
  Mat(m.ord, m.nr, m.nc, [p \in 1..Len(m.mem) |-> <<0, V(T, G(m.mem[p][2]))>>])
InPlace(T, m, G(_)) ==
  Mat(m.ord, m.nr, m.nc, [p \in 1..Len(m.mem) |-> <<m.mem[p][1], V(T, G(m.mem[p][2]))>>])

Id(x) == x

\* result of combining l and r elementwise, keep: left identities survive
Combine(T, l, r, n, keep) ==
  Mat(l.ord, l.nr, l.nc,
      [p \in 1..Len(l.mem) |->
         <<IF keep THEN l.mem[p][1] ELSE 0,
           V(T, FOp(n, l.mem[p][2], Val(At(r, RowAt(l, p), ColAt(l, p)))))>>])

RECURSIVE SumMul(_, _, _, _, _)
SumMul(l, r, i, j, k) ==        \* sum over 0..k of l[i][.] * r[.][j]
  IF k < 0 THEN 0
  ELSE (SumMul(l, r, i, j, k - 1) + FMul(Val(At(l, i, k)), Val(At(r, k, j)))) % MODN
Product(T, l, r) ==
  LET F(i, j) == <<0, V(T, SumMul(l, r, i, j, l.nc - 1))>> IN Build(l.ord, l.nr, r.nc, F)

MulErr(l, r) ==
  IF l.nc # r.nr THEN "ShapeNotConformable"
  ELSE IF Request(l.nr, r.nc).k = "size" THEN "SizeOverflow" ELSE "CapacityOverflow"

RowIds(m, i) == [j \in 1..m.nc |-> At(m, i, j - 1)[1]]
ColIds(m, j) == [i \in 1..m.nr |-> At(m, i - 1, j)[1]]

SetOf(s) == {s[k] : k \in 1..Len(s)}
\* position in the log of each logged argument (the log is injective)
Inverse(log) == [x \in SetOf(log) |-> CHOOSE k \in 1..Len(log) : log[k] = x]

\* rows given to a conversion: lens are the row lengths, values count up
Ragged(lens) == \E k \in 1..Len(lens) : lens[k] # lens[1]
FromRows(T, lens) ==
  LET n == Len(lens)
      c == IF n = 0 THEN 0 ELSE lens[1]
  IN Mat(0, n, c, [p \in 1..(n * c) |-> <<0, V(T, p)>>])

MacroForm(T, f) ==      \* what the macro forms of the harness describe
  LET Lit(r, c) == Mat(0, r, c, [p \in 1..(r * c) |-> <<0, V(T, p)>>])
      Rep(r, c) == Filled(T, r, c, 1)
      RepRow(r, c) == Mat(0, r, c, [p \in 1..(r * c) |-> <<0, V(T, ((p - 1) % c) + 1)>>])
  IN CASE f = 0 -> Lit(0, 0)  [] f = 1 -> Rep(2, 3)     [] f = 2 -> Rep(2, 0)
       [] f = 3 -> Lit(1, 3)  [] f = 4 -> Lit(2, 3)     [] f = 5 -> Lit(3, 1)
       [] f = 6 -> Lit(1, 2)  [] f = 7 -> Lit(1, 0)     [] f = 8 -> Rep(1, 3)
       [] f = 9 -> Lit(1, 3)  [] f = 10 -> Rep(1, 0)    [] f = 11 -> Lit(0, 1)
       [] f = 12 -> Rep(3, 1) [] f = 13 -> Lit(3, 1)    [] f = 14 -> Lit(2, 1)
       [] f = 15 -> RepRow(3, 2) [] f = 16 -> Rep(0, 2) [] f = 17 -> Rep(0, 1)
       \* no rows, of a length that the type still tells
       [] f = 18 -> Lit(0, 2) [] f \in {19, 20, 21} -> Lit(0, 3) [] f = 28 -> Lit(0, 1)
       [] f = 22 -> Rep(3, 3) [] f = 23 -> Lit(2, 2)    [] f = 24 -> Lit(2, 3)
       [] f = 25 -> RepRow(2, 3) [] f = 26 -> Rep(1, 2) [] f = 27 -> Rep(2, 1)
       [] f = 29 -> Lit(1, 3) [] f = 30 -> Lit(3, 1)

\* ------------------------------------------------- slots a call touches
Creates == {"new", "default", "with_capacity", "with_default", "with_value", "with_init",
            "rows", "mac", "from_row", "from_col"}
Binary == {"overwrite", "eq", "ew", "ewg", "mul", "like", "clone_from", "conf"}
Needs(e) ==
  CASE e.op = "end" -> {}
    [] e.op \in Creates -> {}
    [] e.op \in Binary -> {e.a[1], e.a[2]}
    [] OTHER -> {e.a[1]}
\* slots whose contents the call may change
Writes(e) ==
  LET a == e.a IN
  CASE e.op = "end" -> {0, 1, 2, 3}
    [] e.op \in Creates -> {a[1]}
    [] e.op \in {"transpose", "sw", "sww", "so", "sow", "reshape", "resize", "clear", "shrink",
                 "shrink_to", "swap", "swap_rows", "swap_cols", "overwrite", "apply",
                 "par_apply", "clone_from", "drop", "set", "setx", "itermut", "into", "par_into"} -> {a[1]}
    [] e.op \in {"map", "par_map"} -> {a[1], a[2]}
    [] e.op \in {"mapref", "par_mapref", "clone"} -> {a[2]}
    [] e.op = "ewg" -> (CASE a[4] = 0 -> {a[3]} [] a[4] \in {1, 2} -> {a[1], a[3]} [] OTHER -> {a[1]})
    [] e.op = "ew" -> (CASE a[5] \in {0, 6} -> {a[3]} [] a[5] \in {1, 4} -> {a[1], a[3]}
                        [] a[5] \in {2, 8} -> {a[1]} [] a[5] = 3 -> {a[1], a[2], a[3]}
                        [] a[5] = 5 -> {a[2], a[3]} [] a[5] = 7 -> {a[1], a[2]})
    [] e.op = "mul" -> (CASE a[4] \in {0, 1} -> {a[1], a[2], a[3]} [] a[4] = 2 -> {a[1], a[3]}
                         [] a[4] = 3 -> {a[2], a[3]} [] OTHER -> {a[3]})
    [] e.op = "like" -> {a[1], a[2], a[3]}
    [] e.op = "sc" -> (CASE a[3] = 0 -> {a[2]} [] a[3] = 1 -> {a[1], a[2]} [] OTHER -> {a[1]})
    [] e.op = "neg" -> IF a[3] = 0 THEN {a[1], a[2]} ELSE {a[2]}
    [] OTHER -> {}

\* ----------------------------------------------------- closure logs
Conformable(l, r) == l.nr = r.nr /\ l.nc = r.nc
PairIds(l, r) == {<<l.mem[p][1], At(r, RowAt(l, p), ColAt(l, p))[1]>> : p \in 1..Len(l.mem)}
LineIds(l, r) == {<<RowIds(l, i), ColIds(r, j)>> : i \in 0..(l.nr - 1), j \in 0..(r.nc - 1)}
Coords(r, c) == {<<i, j>> : i \in 0..(r - 1), j \in 0..(c - 1)}

Calls(log, n, S) == Len(log) = n /\ SetOf(log) = S

\* the closure was called exactly once per position with the right arguments
RetOK(T, W, e) ==
  LET a == e.a
      M(k) == W[a[k] + 1]
  IN
  IF e.res # "ok" THEN TRUE ELSE
  CASE e.op = "with_init" ->
         Request(a[2], a[3]).k = "n" => Calls(e.ret, a[2] * a[3], Coords(a[2], a[3]))
    [] e.op = "ewg" ->
         Conformable(M(1), M(2)) =>
           IF T.z = 1 THEN Len(e.ret) = Size(M(1))
           ELSE Calls(e.ret, Size(M(1)), PairIds(M(1), M(2)))
    [] e.op = "like" ->
         M(1).nc = M(2).nr =>
           IF M(1).nc = 0 THEN e.ret = <<>>
           ELSE IF T.z = 1
             THEN /\ Len(e.ret) = M(1).nr * M(2).nc
                  /\ \A k \in 1..Len(e.ret) : Len(e.ret[k][1]) = M(1).nc /\ Len(e.ret[k][2]) = M(1).nc
             ELSE Calls(e.ret, M(1).nr * M(2).nc, LineIds(M(1), M(2)))
    [] e.op = "sc" ->
         IF T.z = 1 THEN Len(e.ret) = Size(M(1))
         ELSE Calls(e.ret, Size(M(1)), {M(1).mem[p][1] : p \in 1..Size(M(1))})
    [] OTHER -> TRUE

Logged == {"with_init", "ewg", "like", "sc", "fmt"}

\* ------------------------------------------------------------ one call
Apply(T, W, e) ==
  LET a == e.a
      M(k) == W[a[k] + 1]           \* matrix in the slot named by argument k
      m == M(1)
  IN
  IF e.op = "end" THEN Ok([k \in 1..Len(W) |-> NoM])
  ELSE IF \E k \in Needs(e) : ~Has(W[k + 1])
    THEN [res |-> "skip", W |-> W, ret |-> <<>>]
  ELSE
  CASE e.op \in {"new", "default", "with_capacity"} -> Ok(Put(W, a[1], Mat(0, 0, 0, <<>>)))
    [] e.op = "with_default" -> Constr(T, W, a[1], a[2], a[3], 0)
    [] e.op = "with_value" -> Constr(T, W, a[1], a[2], a[3], a[5])
    [] e.op = "with_init" ->
         LET q == Request(a[2], a[3])
             inv == Inverse(e.ret)
             F(i, j) == <<0, V(T, inv[<<i, j>>])>>
         IN IF q.k = "size" THEN Err(W, "SizeOverflow")
            ELSE IF q.k = "cap" THEN Err(W, "CapacityOverflow")
            ELSE Ok(Put(W, a[1], Build(0, a[2], a[3], F)))
    [] e.op = "rows" ->
         LET lens == SubSeq(a, 3, Len(a)) IN
         IF Ragged(lens)
           THEN IF a[2] \in {3, 4, 8, 9, 10, 11} THEN Panic(W) ELSE Err(W, "LengthInconsistent")
           ELSE Ok(Put(W, a[1], FromRows(T, lens)))
    [] e.op = "mac" -> Ok(Put(W, a[1], MacroForm(T, a[2])))
    [] e.op = "from_row" -> Ok(Put(W, a[1], FromRows(T, <<a[3]>>)))
    [] e.op = "from_col" ->
         Ok(Put(W, a[1], Mat(0, a[3], 1, [p \in 1..a[3] |-> <<0, V(T, p)>>])))
    [] e.op = "transpose" -> Ok(Put(W, a[1], Transposed(m)))
    [] e.op = "sw" -> Ok(Put(W, a[1], Switched(m)))
    [] e.op = "sww" -> Ok(Put(W, a[1], Relabelled(m)))
    [] e.op = "so" -> Ok(IF m.ord = a[2] THEN W ELSE Put(W, a[1], Switched(m)))
    [] e.op = "sow" -> Ok(IF m.ord = a[2] THEN W ELSE Put(W, a[1], Relabelled(m)))
    [] e.op = "reshape" ->
         LET q == Request(a[2], a[3]) IN
         IF q.k = "n" /\ q.n = Size(m)
           THEN Ok(Put(W, a[1], Mat(m.ord, a[2], a[3], m.mem)))
           ELSE Err(W, "SizeMismatch")
    [] e.op = "resize" ->
         LET q == Request(a[2], a[3]) IN
         IF q.k = "size" THEN Err(W, "SizeOverflow")
         ELSE IF q.k = "cap" THEN Err(W, "CapacityOverflow")
         ELSE Ok(Put(W, a[1], Mat(m.ord, a[2], a[3],
                [p \in 1..q.n |-> IF p <= Size(m) THEN m.mem[p] ELSE <<0, 0>>])))
    [] e.op = "clear" -> Ok(Put(W, a[1], Mat(m.ord, 0, 0, <<>>)))
    [] e.op \in {"shrink", "shrink_to"} -> Ok(W)
    [] e.op = "swap" ->
         IF Resolves(m, a[2], a[3], a[4]) /\ Resolves(m, a[5], a[6], a[7])
           THEN Ok(Put(W, a[1], SwapMem(m, Res(m, a[2], a[3], a[4]), Res(m, a[5], a[6], a[7]))))
           ELSE Err(W, "IndexOutOfBounds")
    [] e.op = "swap_rows" ->
         IF a[2] >= 0 /\ a[3] >= 0 /\ a[2] < m.nr /\ a[3] < m.nr
           THEN Ok(Put(W, a[1], SwapLine(m, 0, a[2], a[3]))) ELSE Err(W, "IndexOutOfBounds")
    [] e.op = "swap_cols" ->
         IF a[2] >= 0 /\ a[3] >= 0 /\ a[2] < m.nc /\ a[3] < m.nc
           THEN Ok(Put(W, a[1], SwapLine(m, 1, a[2], a[3]))) ELSE Err(W, "IndexOutOfBounds")
    [] e.op = "overwrite" ->
         LET s == M(2)
             F(i, j) == IF i < s.nr /\ j < s.nc THEN <<0, Val(At(s, i, j))>> ELSE At(m, i, j)
         IN Ok(Put(W, a[1], Build(m.ord, m.nr, m.nc, F)))
    [] e.op \in {"apply", "par_apply"} -> OkR(Put(W, a[1], InPlace(T, m, FApply)), <<Size(m)>>)
    [] e.op = "map" ->
         OkR(Put(Clr(W, a[1]), a[2],
                 IF a[3] \in {0, 3, 4} THEN Fresh(T, m, FMap) ELSE InPlace(T, m, FMap)), <<Size(m)>>)
    [] e.op = "par_map" ->
         OkR(Put(Clr(W, a[1]), a[2],
                 IF a[3] = 0 THEN Fresh(T, m, FMap) ELSE InPlace(T, m, FMap)), <<Size(m)>>)
    [] e.op = "mapref" ->
         OkR(Put(W, a[2], IF a[3] = 1 THEN Fresh(T, m, Id) ELSE Fresh(T, m, FMap)), <<Size(m)>>)
    [] e.op = "par_mapref" -> OkR(Put(W, a[2], Fresh(T, m, FMap)), <<Size(m)>>)
    [] e.op = "clone" -> Ok(Put(W, a[2], Fresh(T, m, Id)))
    [] e.op = "clone_from" -> Ok(Put(W, a[1], Fresh(T, M(2), Id)))
    [] e.op = "drop" -> Ok(Clr(W, a[1]))
    [] e.op = "contains" ->
         OkR(W, <<B(\E p \in 1..Size(m) : T.nq = 0 /\ (T.z = 1 \/ EqVal(Val(m.mem[p]), a[2])))>>)
    [] e.op = "eq" ->
         LET q == EqLogical(T, m, M(2)) IN OkR(W, <<B(q), B(~q), B(q)>>)
    [] e.op = "eqself" ->
         LET q == EqLogical(T, m, m) IN OkR(W, <<B(q), B(~q), B(q)>>)
    [] e.op = "conf" ->
         LET sq == m.nr = m.nc  ew == Conformable(m, M(2))  mu == m.nc = M(2).nr
             N(b, x) == IF b THEN "ok" ELSE x
         IN OkR(W, <<B(sq), B(ew), B(mu), N(sq, "SquareMatrixRequired"),
                     N(ew, "ShapeNotConformable"), N(mu, "ShapeNotConformable")>>)
    [] e.op = "ewg" ->
         LET r == M(2)
             W1 == IF a[4] \in {1, 2} THEN Clr(W, a[1]) ELSE W
             inv == Inverse(e.ret)
             keep == a[4] \in {2, 3}
             out == Mat(m.ord, m.nr, m.nc, [p \in 1..Len(m.mem) |->
                      <<IF keep THEN m.mem[p][1] ELSE 0,
                        IF T.z = 1 THEN 0
                        ELSE inv[<<m.mem[p][1], At(r, RowAt(m, p), ColAt(m, p))[1]>>]>>])
         IN IF ~Conformable(m, r) THEN Err(W1, "ShapeNotConformable")
            ELSE Ok(Put(W1, IF a[4] = 3 THEN a[1] ELSE a[3], out))
    [] e.op = "ew" ->
         LET r == M(2)
             f == a[5]
             W1 == IF f \in {1, 3, 4} THEN Clr(W, a[1]) ELSE W
             W2 == IF f \in {3, 5, 7} THEN Clr(W1, a[2]) ELSE W1
             keep == f \in {2, 7, 8}
         IN IF ~Conformable(m, r)
              THEN IF f <= 2 THEN Err(W2, "ShapeNotConformable") ELSE Panic(W2)
              ELSE Ok(Put(W2, IF keep THEN a[1] ELSE a[3], Combine(T, m, r, a[4], keep)))
    [] e.op = "mul" ->
         LET r == M(2)
             f == a[4]
             W1 == IF f \in {0, 1, 2} THEN Clr(W, a[1]) ELSE W
             W2 == IF f \in {0, 1, 3} THEN Clr(W1, a[2]) ELSE W1
             q == Request(m.nr, r.nc)
         IN IF m.nc # r.nr \/ q.k # "n"
              THEN IF f = 0 THEN Err(W2, MulErr(m, r)) ELSE Panic(W2)
              ELSE Ok(Put(W2, a[3], Product(T, m, r)))
    [] e.op = "like" ->
         LET r == M(2)
             W2 == Clr(Clr(W, a[1]), a[2])
             inv == Inverse(e.ret)
             F(i, j) == IF m.nc = 0 \/ T.z = 1 THEN <<0, 0>>
                        ELSE <<0, inv[<<RowIds(m, i), ColIds(r, j)>>]>>
         IN IF m.nc # r.nr \/ Request(m.nr, r.nc).k # "n" THEN Err(W2, MulErr(m, r))
            ELSE Ok(Put(W2, a[3], Build(m.ord, m.nr, r.nc, F)))
    [] e.op = "sc" ->
         LET G(x) == FScalar(x, a[4]) IN
         (CASE a[3] = 0 -> Ok(Put(W, a[2], Fresh(T, m, G)))
            [] a[3] = 1 -> Ok(Put(Clr(W, a[1]), a[2], Fresh(T, m, G)))
            [] OTHER -> Ok(Put(W, a[1], InPlace(T, m, G))))
    [] e.op = "neg" ->
         Ok(Put(IF a[3] = 0 THEN Clr(W, a[1]) ELSE W, a[2], Fresh(T, m, FNeg)))
    [] e.op = "set" ->
         IF InB(m, a[2], a[3])
           THEN Ok(Put(W, a[1], [m EXCEPT !.mem[Flat(m.ord, m.nr, m.nc, a[2], a[3]) + 1] = <<0, V(T, a[4])>>]))
           ELSE Err(W, "IndexOutOfBounds")
    [] e.op = "setx" ->
         IF InB(m, a[2], a[3])
           THEN Ok(Put(W, a[1], [m EXCEPT !.mem[Flat(m.ord, m.nr, m.nc, a[2], a[3]) + 1] = <<0, V(T, a[4])>>]))
           ELSE Panic(W)
    [] e.op = "par_into" -> OkR(Clr(W, a[1]), <<Size(m)>>)
    [] e.op = "get" ->
         IF InB(m, a[2], a[3]) THEN OkR(W, <<At(m, a[2], a[3])[1]>>) ELSE Err(W, "IndexOutOfBounds")
    [] e.op = "index" ->
         IF InB(m, a[2], a[3]) THEN OkR(W, <<At(m, a[2], a[3])[1]>>) ELSE Panic(W)
    [] e.op = "itermut" ->
         LET n == IF a[2] = 0 THEN m.nr ELSE m.nc        \* number of vectors
             l == IF a[2] = 0 THEN m.nc ELSE m.nr        \* their length
             vec(i) == IF a[3] = 2 THEN n - 1 - i ELSE i \* vector visited i-th
             pos(j) == IF a[3] >= 1 THEN l - 1 - j ELSE j
             el(i, j) == IF a[2] = 0 THEN At(m, vec(i), pos(j)) ELSE At(m, pos(j), vec(i))
             \* vec and pos are involutions
             F(r, c) == LET i == IF a[2] = 0 THEN vec(r) ELSE vec(c)
                            j == IF a[2] = 0 THEN pos(c) ELSE pos(r)
                        IN <<At(m, r, c)[1], V(T, (100 + 10 * i + j) % MODN)>>
         IN OkR(Put(W, a[1], Build(m.ord, m.nr, m.nc, F)),
                [i \in 1..n |-> [j \in 1..l |-> el(i - 1, j - 1)[1]]])
    [] e.op = "iter" ->
         OkR(W, IF a[2] = 0 THEN [i \in 1..m.nr |-> RowIds(m, i - 1)]
                            ELSE [j \in 1..m.nc |-> ColIds(m, j - 1)])
    [] e.op = "nth" ->
         IF a[2] \in {0, 2}
           THEN IF a[3] >= 0 /\ a[3] < m.nr THEN OkR(W, RowIds(m, a[3])) ELSE Err(W, "IndexOutOfBounds")
           ELSE IF a[3] >= 0 /\ a[3] < m.nc THEN OkR(W, ColIds(m, a[3])) ELSE Err(W, "IndexOutOfBounds")
    [] e.op = "into" ->
         LET s == Size(m)
             f == Min(a[2], s)
             b == Min(a[3], s - f)
         IN OkR(Clr(W, a[1]),
                [k \in 1..f |-> m.mem[k][1]] \o [k \in 1..b |-> m.mem[s - k + 1][1]] \o <<s - f - b>>)
    [] e.op = "elems" ->
         OkR(W, [p \in 1..Size(m) |-> <<RowAt(m, p), ColAt(m, p), m.mem[p][1]>>])
    [] e.op = "fmt" -> Ok(W)

=============================================================================
