----------------------------- MODULE TraceThreads -----------------------------
(***************************************************************************)
(* Validates (C17) real runs in which rows (axis 0) or columns (axis 1) of *)
(* one matrix are mutated on several threads.  A line: z (zero-sized       *)
(* elements), axis, ord, nr, nc, nt; log: <<thread, vector, positions,     *)
(* values before>>; final: the contents in memory order.  The element at   *)
(* position p starts as p + 1 and is replaced by F(F(p + 1)).              *)
(* Or the type checker's verdict on a probe program: what ("move",         *)
(* "share", "always": must be refused for every type), send, sync (the     *)
(* class of the element type), verdict.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, k
vars == <<sid, k>>

\* ------------------------------------------------------------- the verdicts
Permitted(c) == \/ c.what = "move" /\ c.send = 1
                \/ c.what = "share" /\ c.sync = 1
Probe(c) == Permitted(c) \/ c.verdict = "reject"

\* ----------------------------------------------------------------- the runs
F(v, i) == (3 * v + i + 1) % 251
Vectors(c) == IF c.axis = 0 THEN c.nr ELSE c.nc
Length(c) == IF c.axis = 0 THEN c.nc ELSE c.nr
At(c, r, q) == IF c.ord = 0 THEN r * c.nc + q ELSE q * c.nr + r
Places(c, i) == {IF c.axis = 0 THEN At(c, i, j) ELSE At(c, j, i) : j \in 0..(Length(c) - 1)}
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE Len(f[n][3]) + Sum(f, n - 1)
Pieces(c, i) == SelectSeq(c.log, LAMBDA e : e[2] = i)
Reached(c, i) == UNION {{e[3][n] : n \in 1..Len(e[3])} : e \in {c.log[x] : x \in {y \in 1..Len(c.log) : c.log[y][2] = i}}}
\* who reached a position
Owners(c, p) == {c.log[x][1] : x \in {y \in 1..Len(c.log) : \E n \in 1..Len(c.log[y][3]) : c.log[y][3][n] = p}}
Run(c) ==
  LET N == c.nr * c.nc
  IN /\ \A x \in 1..Len(c.log) : c.log[x][2] \in 0..(Vectors(c) - 1) /\ c.log[x][1] \in 0..(c.nt - 1)
     \* each vector is there, with all its elements, once
     /\ Sum(c.log, Len(c.log)) = N
     /\ \A i \in 0..(Vectors(c) - 1) :
          LET P == Pieces(c, i) IN
          IF c.z = 1 THEN Sum(P, Len(P)) = Length(c)
          ELSE Reached(c, i) = Places(c, i) /\ Sum(P, Len(P)) = Length(c)
     /\ Len(c.final) = N
     /\ c.z = 0 =>
          \* no element is reachable from two threads
          /\ \A p \in 0..(N - 1) : Cardinality(Owners(c, p)) = 1
          \* nobody saw another thread's writes
          /\ \A x \in 1..Len(c.log) : \A n \in 1..Len(c.log[x][3]) : c.log[x][4][n] = c.log[x][3][n] + 1
          \* the same as one after the other
          /\ \A i \in 0..(Vectors(c) - 1) : \A p \in Places(c, i) : c.final[p + 1] = F(F(p + 1, i), i)
Accept(c) == IF "what" \in DOMAIN c THEN Probe(c) ELSE "log" \in DOMAIN c /\ Run(c)
Init == sid \in 1..Len(Tr) /\ k = 1
Next == \/ k = 1 /\ Accept(Tr[sid]) /\ k' = 2 /\ UNCHANGED sid
        \/ k = 2 /\ UNCHANGED vars
=============================================================================
