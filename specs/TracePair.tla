------------------------------ MODULE TracePair ------------------------------
(***************************************************************************)
(* Storage order is transparent.  A line is a pair of executions of the    *)
(* same order-agnostic calls; run B stores some operands in the other      *)
(* order (extra `sw` steps, recorded as b-only steps).  After every common *)
(* call both runs must have returned the same result, the same observation *)
(* and the same Display text, and hold logically equal matrices.           *)
(***************************************************************************)
EXTENDS Matreex, Json, IOUtils, TLC

Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, k, wa, wb
vars == <<sid, k, wa, wb>>
L == Tr[sid]
P == Tr[sid].steps[k]

ToM(o) == IF o.ord = -1 THEN NoM ELSE Mat(o.ord, o.nr, o.nc, o.mem)
Observed(W, e) ==
  [n \in 1..Len(W) |->
     IF \E x \in 1..Len(e.w) : e.w[x].k = n - 1
       THEN ToM(e.w[CHOOSE x \in 1..Len(e.w) : e.w[x].k = n - 1])
       ELSE W[n]]

\* value of the element with identity i in world W
ValOf(W, i) ==
  LET n == CHOOSE n \in 1..Len(W) : \E p \in 1..Len(W[n].mem) : W[n].mem[p][1] = i
      p == CHOOSE p \in 1..Len(W[n].mem) : W[n].mem[p][1] = i
  IN W[n].mem[p][2]
Vals(W, s) == [i \in 1..Len(s) |-> ValOf(W, s[i])]

RetAgree(a, b) ==
  CASE a.op \in {"eq", "eqself", "conf", "contains"} -> a.ret = b.ret
    [] a.op = "fmt" -> a.a[2] = 0 => a.ret = b.ret          \* Display
    [] a.op \in {"get", "index", "nth"} /\ L.z = 0 -> Vals(wa, a.ret) = Vals(wb, b.ret)
    [] a.op \in {"iter", "itermut"} /\ L.z = 0 ->
         /\ Len(a.ret) = Len(b.ret)
         /\ a.op = "iter" => \A i \in 1..Len(a.ret) : Vals(wa, a.ret[i]) = Vals(wb, b.ret[i])
    [] OTHER -> Len(a.ret) = Len(b.ret)

Agree(A, C) == \A n \in 1..Len(A) : (Has(A[n]) <=> Has(C[n])) /\ SameLogical(A[n], C[n])

Init == sid \in 1..Len(Tr) /\ k = 1 /\ wa = [n \in 1..4 |-> NoM] /\ wb = [n \in 1..4 |-> NoM]
Step ==
  /\ k <= Len(L.steps)
  /\ IF "x" \in DOMAIN P
       THEN \* only run B: a change of storage order
            /\ P.b.op \in {"sw", "so"} /\ P.b.res \in {"ok", "skip"}
            /\ wa' = wa /\ wb' = Observed(wb, P.b)
       ELSE /\ P.a.res \notin {"crash", "hang"} /\ P.a.res = P.b.res
            /\ P.a.op = P.b.op /\ P.a.a = P.b.a
            /\ RetAgree(P.a, P.b)
            /\ wa' = Observed(wa, P.a) /\ wb' = Observed(wb, P.b)
  /\ Agree(wa', wb')
  /\ k' = k + 1 /\ UNCHANGED sid
Next == Step \/ (k > Len(L.steps) /\ UNCHANGED vars)
Inv == \A n \in 1..4 : Coherent(wa[n]) /\ Coherent(wb[n])
=============================================================================
