------------------------------ MODULE TraceBulk ------------------------------
(***************************************************************************)
(* Validates one operation on large matrices, recorded as runs             *)
(* <<start, value, step, count>>, element by element against Bulk.         *)
(***************************************************************************)
EXTENDS Bulk, TLC, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, k
vars == <<sid, k>>

A(e) == <<e.o, e.r, e.c, 1>>
BM(e) == <<e.o2, e.r2, e.c2, 1000001>>

\* runs describe the sequence F(0), ..., F(n - 1)
Runs(s, n, F(_)) ==
  /\ IF Len(s) = 0 THEN n = 0 ELSE s[1][1] = 0 /\ s[Len(s)][1] + s[Len(s)][4] = n
  /\ \A q \in 1..(Len(s) - 1) : s[q][1] + s[q][4] = s[q + 1][1]
  /\ \A q \in 1..Len(s) : \A d \in 0..(s[q][4] - 1) : F(s[q][1] + d) = s[q][2] + s[q][3] * d

\* an observed matrix has this order, shape and contents
Is(obs, h, V(_, _)) ==
  /\ obs.coh = 1 /\ obs.o = h[1] /\ obs.r = h[2] /\ obs.c = h[3]
  /\ Runs(obs.m, h[2] * h[3], LAMBDA p : V(Row(h[1], h[2], h[3], p), Col(h[1], h[2], h[3], p)))
  /\ Runs(obs.g, h[2] * h[3], LAMBDA p : V(p \div h[3], p % h[3]))
\* the contents only, in any order
IsLogical(obs, r, c, V(_, _)) ==
  Is(obs, <<obs.o, r, c>>, V)

Kept(e, obs, m) == Is(obs, <<m[1], m[2], m[3]>>, LAMBDA i, j : At(m, i, j))
N(e) == e.r * e.c
\* elements that are kept are moved; where the operation clones, at least the
\* clones it needs, and every surplus one dropped again
Moved(e, cl, dr) ==
  e.cl = -1 \/ IF cl = 0 THEN e.cl = 0 /\ e.dr = dr
               ELSE e.cl >= cl /\ e.cl - e.dr = cl - dr
Normal(e) ==
  LET t == Traffic(e.op, A(e), BM(e)) IN Moved(e, t[1], t[2])
Outcome(e) == Is(e.R, Header(e.op, A(e), BM(e), e.x, e.y),
                 LAMBDA i, j : Value(e.op, A(e), BM(e), e.x, e.y, i, j))

\* the k-th item in visit order, forwards or backwards
Dir(e, n, p) == IF e.x = 1 THEN n - 1 - p ELSE p
\* memory position p of A, as row-major number
RowMajor(e, p) == Row(e.o, e.r, e.c, p) * e.c + Col(e.o, e.r, e.c, p)
Bumped(e, yes) == Is(e.R, <<e.o, e.r, e.c>>, LAMBDA i, j : At(A(e), i, j) + IF yes THEN 500000 ELSE 0)

Accept(e) ==
  /\ "steps" \notin DOMAIN e
  /\ e.left = 0
  /\ CASE e.op \in {0, 1, 2, 3, 4, 11, 14} -> Outcome(e) /\ Normal(e)
       [] e.op \in {5, 6, 8, 9, 10} ->
            /\ e.res = Result(e.op, A(e), BM(e), e.x, e.y)
            /\ IF e.res = "ok" THEN Outcome(e) /\ Normal(e) ELSE Kept(e, e.R, A(e)) /\ Moved(e, 0, 0)
       [] e.op \in {7} -> Outcome(e) /\ Normal(e) /\ Kept(e, e.B, BM(e))
       [] e.op \in {12, 13, 15, 16} ->
            /\ e.res = "ok" /\ Outcome(e) /\ (e.op \in {12, 15} => Normal(e))
            /\ e.op = 16 => e.n = N(e)
       [] e.op \in {17, 18} -> Kept(e, e.R, A(e)) /\ Kept(e, e.B, A(e)) /\ Normal(e)
       [] e.op = 19 -> e.v = (IF e.x < 0 THEN <<1, 1, 0>> ELSE <<0, 0, 1>>) /\ Moved(e, 0, 0)
       [] e.op = 20 ->
            /\ e.res = Result(20, A(e), BM(e), e.x, e.y)
            /\ Kept(e, e.B, BM(e))
            /\ IF e.res = "ok" THEN Outcome(e) /\ e.n = N(e) /\ (e.y # 0 => Moved(e, 0, 0))
               ELSE e.n = 0 /\ (e.y = 2 => Kept(e, e.R, A(e)))
       [] e.op = 21 -> e.res = "ok" /\ Outcome(e) /\ e.n = N(e) /\ Moved(e, 0, 0)
       [] e.op = 22 ->
            /\ e.res = Result(22, A(e), BM(e), e.x, e.y)
            /\ e.res = "ok" => Is(e.R, Header(22, A(e), BM(e), 0, 0),
                                  LAMBDA i, j : Dot(<<e.o, e.r, e.c, 0>>, <<e.o2, e.r2, e.c2, 0>>, i, j, 0, 0))
            /\ (e.res = "ok" /\ e.y = 5) => e.v = <<IF e.c = 0 THEN 0 ELSE e.r * e.c2, 0>>
       [] e.op = 23 ->
            LET byrow == e.y % 2 = 0
                outer == IF byrow THEN e.r ELSE e.c
                inner == IF byrow THEN e.c ELSE e.r
            IN /\ e.v = <<outer, IF outer = 0 THEN -1 ELSE inner, IF outer = 0 THEN -1 ELSE inner, 0>>
               /\ Runs(e.l, N(e), LAMBDA p :
                    LET q == Dir(e, N(e), p)
                        i == q \div inner
                        j == q % inner
                    IN IF byrow THEN At(A(e), i, j) ELSE At(A(e), j, i))
               /\ Bumped(e, e.y >= 2) /\ Moved(e, 0, 0)
       [] e.op = 24 ->
            LET byrow == e.y % 2 = 0
                inner == IF byrow THEN e.c ELSE e.r
                ok == Result(24, A(e), BM(e), e.x, e.y) = "ok"
            IN /\ e.res = Result(24, A(e), BM(e), e.x, e.y)
               /\ e.v = IF ok THEN inner ELSE -1
               /\ Runs(e.l, IF ok THEN inner ELSE 0,
                       LAMBDA p : IF byrow THEN At(A(e), e.x, p) ELSE At(A(e), p, e.x))
               /\ Is(e.R, <<e.o, e.r, e.c>>,
                     LAMBDA i, j : At(A(e), i, j) +
                        IF ok /\ e.y >= 2 /\ (IF byrow THEN i ELSE j) = e.x THEN 500000 ELSE 0)
               /\ Moved(e, 0, 0)
       [] e.op = 25 ->
            /\ e.n = N(e)
            /\ Runs(e.l, N(e), LAMBDA p : Dir(e, N(e), p) + 1)
            /\ Runs(e.ix, N(e), LAMBDA p : IF e.y >= 3 THEN RowMajor(e, Dir(e, N(e), p)) ELSE -1)
            /\ IF e.y \in {2, 5} THEN Moved(e, 0, N(e)) ELSE Kept(e, e.R, A(e)) /\ Moved(e, 0, 0)
       [] e.op = 26 ->
            /\ Runs(e.l, N(e), LAMBDA p : p + 1)
            /\ Runs(e.ix, N(e), LAMBDA p : IF e.y >= 3 THEN RowMajor(e, p) ELSE -1)
            /\ IF e.y \in {2, 5} THEN Moved(e, 0, N(e)) ELSE Kept(e, e.R, A(e)) /\ Moved(e, 0, 0)
       [] e.op = 27 ->
            \* y: 10 one row too short, 20 one row too long (not the first: x > 0 or several rows)
            LET ragged == e.x >= 0 /\ e.y >= 10 /\ e.r > 1
                wide == IF e.x >= 0 /\ e.y >= 10 /\ e.r = 1 THEN (IF e.y \div 10 = 1 THEN e.c - 1 ELSE e.c + 1) ELSE e.c
            IN IF ragged THEN e.res = "LengthInconsistent"
               ELSE /\ e.res = "ok"
                    /\ e.r > 0 => IsLogical(e.R, e.r, wide,
                         LAMBDA i, j : IF j = e.c THEN 77 ELSE 1 + i * e.c + j)
                    /\ e.y % 10 \notin {1, 6} => Moved(e, 0, 0)
       [] e.op = 28 -> e.res = "ok" /\ e.n = N(e) /\ IsLogical(e.R, e.r, e.c, LAMBDA i, j : 1 + i * e.c + j)
                       /\ Moved(e, 0, 0)
       [] e.op = 29 -> /\ e.res = "ok"
                       /\ IsLogical(e.R, e.r, e.c, LAMBDA i, j : IF e.y = 0 THEN e.x ELSE 0)
                       /\ (e.y = 0 /\ e.cl # -1) => e.cl - e.dr = N(e) - 1
       [] e.op = 32 -> e.v = (IF e.x \in 1..N(e) THEN 1 ELSE 0)
       [] e.op = 33 -> Is(e.R, <<e.o, e.r, e.c>>,
                          LAMBDA i, j : Value(33, A(e), <<e.o2, e.r, e.c, 1000001>>, e.x, e.y, i, j))
       [] e.op = 34 -> Runs(e.l, N(e), LAMBDA p : At(A(e), ((p \div e.c) + e.x) % e.r, ((p % e.c) + e.y) % e.c))

Init == sid \in 1..Len(Tr) /\ k = 1
Next == \/ k = 1 /\ (Accept(Tr[sid]) = TRUE) /\ k' = 2 /\ UNCHANGED sid
        \/ k = 2 /\ UNCHANGED vars
=============================================================================
