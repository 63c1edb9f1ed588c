------------------------------- MODULE IterRef -------------------------------
(***************************************************************************)
(* What a row/column iterator and the iterators it yields are: an iterator *)
(* over `len` items is the pair of numbers of items already consumed from  *)
(* the front and from the back.  An outer iterator item is a vector, on    *)
(* which an inner iterator stands.                                         *)
(*                                                                         *)
(* A world S is [L, M, f, b, live, its]: L outer items with M items each;  *)
(* f, b consumed by the outer one; its[w] = [v, f, b, live] the w-th       *)
(* iterator yielded, standing on vector v.                                 *)
(*                                                                         *)
(* Commands <<op, w, a>> on iterator w (0: the outer one):                 *)
(*   n next  b next_back  N nth(a)  B nth_back(a)                          *)
(*   F find, G rfind: a search that passes a items over                    *)
(*   C consume everything forwards  R backwards  c count  z last  d drop   *)
(***************************************************************************)
EXTENDS Integers, Sequences

Start(L, M) == [L |-> L, M |-> M, f |-> 0, b |-> 0, live |-> TRUE, its |-> <<>>]

Left(n, it) == n - it.f - it.b
Consuming == {"C", "R", "c", "z", "d"}

\* [it |-> the iterator afterwards, out |-> the items handed to the caller]
Op(n, it, op, a) ==
  LET left == Left(n, it)
      gone == [it EXCEPT !.live = FALSE]
      drained == [it EXCEPT !.f = n - it.b]
  IN
  CASE op = "n" -> IF left = 0 THEN [it |-> it, out |-> <<>>]
                   ELSE [it |-> [it EXCEPT !.f = @ + 1], out |-> <<it.f>>]
    [] op = "b" -> IF left = 0 THEN [it |-> it, out |-> <<>>]
                   ELSE [it |-> [it EXCEPT !.b = @ + 1], out |-> <<n - it.b - 1>>]
    [] op \in {"N", "F"} -> IF a >= left THEN [it |-> drained, out |-> <<>>]
                   ELSE [it |-> [it EXCEPT !.f = @ + a + 1], out |-> <<it.f + a>>]
    [] op \in {"B", "G"} -> IF a >= left THEN [it |-> drained, out |-> <<>>]
                   ELSE [it |-> [it EXCEPT !.b = @ + a + 1], out |-> <<n - it.b - a - 1>>]
    [] op = "C" -> [it |-> gone, out |-> [k \in 1..left |-> it.f + k - 1]]
    [] op = "R" -> [it |-> gone, out |-> [k \in 1..left |-> n - it.b - k]]
    [] op = "z" -> [it |-> gone, out |-> IF left = 0 THEN <<>> ELSE <<n - it.b - 1>>]
    [] op \in {"c", "d"} -> [it |-> gone, out |-> <<>>]

NewIts(vs) == [k \in 1..Len(vs) |-> [v |-> vs[k], f |-> 0, b |-> 0, live |-> TRUE]]
\* the world after command <<op, w, a>>, and the items handed out
Step(S, op, w, a) ==
  IF w = 0
  THEN LET r == Op(S.L, [f |-> S.f, b |-> S.b, live |-> S.live], op, a)
       IN [S |-> [S EXCEPT !.f = r.it.f, !.b = r.it.b, !.live = r.it.live,
                           !.its = @ \o NewIts(r.out)],
           out |-> r.out]
  ELSE LET r == Op(S.M, S.its[w], op, a)
       IN [S |-> [S EXCEPT !.its[w] = r.it], out |-> r.out]
=============================================================================
