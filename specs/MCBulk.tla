------------------------------- MODULE MCBulk -------------------------------
(***************************************************************************)
(* The coordinate definitions of Bulk against the sequence-based machine   *)
(* of Matreex: every operation on every pair of small matrices.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxDim
K == INSTANCE Bulk
H == INSTANCE Matreex
VARIABLE s

Dims == 0..MaxDim
T == [z |-> 0, es |-> 4, dg |-> 1, nq |-> 0]
Machine(b) == H!Mat(b[1], b[2], b[3], [p \in 1..(b[2] * b[3]) |-> <<p - 1 + b[4], p - 1 + b[4]>>])
Call(o, a) == [op |-> o, a |-> a, res |-> "ok", ret |-> <<>>]
A(t) == <<t[1], t[2], t[3], 1>>
B2(t) == <<t[4], t[5], t[6], 501>>

\* <<bulk number, x, y, the machine's call>>
Calls(t) ==
  LET n == t[2] * t[3] IN
  {<<0, 0, 0, Call("transpose", <<0>>)>>, <<1, 0, 0, Call("sw", <<0>>)>>,
   <<2, 0, 0, Call("sww", <<0>>)>>, <<3, 0, 0, Call("so", <<0, t[4]>>)>>,
   <<4, 0, 0, Call("sow", <<0, t[4]>>)>>, <<5, 0, 0, Call("reshape", <<0, t[5], t[6]>>)>>,
   <<6, 0, 0, Call("resize", <<0, t[5], t[6]>>)>>, <<7, 0, 0, Call("overwrite", <<0, 1>>)>>,
   <<17, 0, 0, Call("map", <<0, 0, 1>>)>>}
  \cup {<<8, x, y, Call("swap_rows", <<0, x, y>>)>> : x \in Dims, y \in Dims}
  \cup {<<9, x, y, Call("swap_cols", <<0, x, y>>)>> : x \in Dims, y \in Dims}
  \cup (IF t[3] = 0 THEN {}
        ELSE {<<10, x, y, Call("swap", <<0, 0, x \div t[3], x % t[3], 0, y \div t[3], y % t[3]>>)>> :
               x \in 0..n, y \in 0..n})
  \* reading single vectors: the result of the machine is the list of elements
  \cup {<<24, x, y, Call("nth", <<0, y, x>>)>> : x \in Dims, y \in 0..1}

Agree(t, c) ==
  LET W == <<Machine(A(t)), Machine(B2(t)), H!NoM, H!NoM>>
      m == A(t)
      b == B2(t)
      e == H!Apply(T, W, c[4])
      r == e.W[1]
      ok == K!Result(c[1], m, b, c[2], c[3])
      h == IF ok = "ok" THEN K!Header(c[1], m, b, c[2], c[3]) ELSE <<m[1], m[2], m[3]>>
      line == IF c[1] = 24 THEN (IF c[3] % 2 = 0 THEN [j \in 1..m[3] |-> K!At(m, c[2], j - 1)]
                                              ELSE [i \in 1..m[2] |-> K!At(m, i - 1, c[2])])
              ELSE <<>>
      val(x) == IF c[1] = 17 THEN (5 * x + 2) % 997 ELSE x
  IN /\ e.res = (IF ok = "ok" THEN "ok" ELSE "err:" \o ok)
     /\ r.ord = h[1] /\ r.nr = h[2] /\ r.nc = h[3]
     /\ \A p \in 1..Len(r.mem) :
          LET i == K!Row(h[1], h[2], h[3], p - 1)
              j == K!Col(h[1], h[2], h[3], p - 1)
          IN /\ K!Flat(h[1], h[2], h[3], i, j) = p - 1
             /\ H!RowAt(r, p) = i /\ H!ColAt(r, p) = j
             /\ r.mem[p][2] = IF ok = "ok" THEN val(K!Value(c[1], m, b, c[2], c[3], i, j)) ELSE K!At(m, i, j)
     /\ (c[1] = 24 /\ ok = "ok") => e.ret = line

\* products and element-wise sums
Products(t) ==
  LET m == A(t)
      b == B2(t)
      e == H!Apply(T, <<Machine(m), Machine(b), H!NoM, H!NoM>>, Call("conf", <<0, 1>>))
  IN /\ (K!Result(22, m, b, 0, 0) = "ok") = (e.ret[3] = 1)
     /\ (K!Result(20, m, b, 0, 0) = "ok") = (e.ret[2] = 1)
     /\ e.ret[3] = 1 =>
          LET l == [Machine(m) EXCEPT !.mem = [p \in 1..Len(@) |-> <<0, (@[p][2] % 5) + 1>>]]
              r == [Machine(b) EXCEPT !.mem = [p \in 1..Len(@) |-> <<0, (@[p][2] % 3) + 1>>]]
          IN \A i \in 0..(m[2] - 1) : \A j \in 0..(b[3] - 1) :
               LET RECURSIVE Sum(_)
                   Sum(k) == IF k = 0 THEN 0 ELSE Sum(k - 1) + H!At(l, i, k - 1)[2] * H!At(r, k - 1, j)[2]
               IN K!Dot(m, b, i, j, 0, 0) = Sum(m[3])

Init == s \in {0, 1} \X Dims \X Dims \X {0, 1} \X Dims \X Dims
Next == UNCHANGED s
Inv == (\A c \in Calls(s) : Agree(s, c)) /\ Products(s)
=============================================================================
