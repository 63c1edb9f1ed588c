------------------------------ MODULE TracePar ------------------------------
(***************************************************************************)
(* Validates one call of a parallel helper, on a pool of any size, against *)
(* what the sequential counterpart does.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, k
vars == <<sid, k>>

MODN == 997
FApply(v) == (3 * v + 1) % MODN
FMap(v) == (5 * v + 2) % MODN
SetOf(s) == {s[q] : q \in 1..Len(s)}
NoDup(s) == Cardinality(SetOf(s)) = Len(s)
N(c) == c.nr * c.nc
\* zero-sized elements have identity 0 and value 0
Id(c, p) == c.pre.mem[p][1]
Val(c, p) == IF c.z = 1 THEN 0 ELSE p
IndexOf(c, p) == IF c.ord = 0 THEN <<(p - 1) \div c.nc, (p - 1) % c.nc>>
                 ELSE <<(p - 1) % c.nr, (p - 1) \div c.nr>>
Ids(c) == {Id(c, p) : p \in 1..N(c)}

Shape(c, m) == m.ord = c.ord /\ m.nr = c.nr /\ m.nc = c.nc /\ Len(m.mem) = N(c)
Pre(c) == /\ Shape(c, c.pre)
          /\ c.z = 0 => (NoDup([p \in 1..N(c) |-> Id(c, p)]) /\ \A p \in 1..N(c) : c.pre.mem[p][2] = p)
\* results: every element at its own position
Fresh(c, m, F(_)) ==            \* new elements
  /\ Shape(c, m)
  /\ c.z = 0 => /\ \A p \in 1..N(c) : m.mem[p][2] = F(Val(c, p)) /\ m.mem[p][1] \in SetOf(c.cr)
                /\ NoDup([p \in 1..N(c) |-> m.mem[p][1]])
                /\ Len(c.cr) = N(c)
Same(c, m, F(_)) ==             \* the same elements, new values
  /\ Shape(c, m)
  /\ c.z = 0 => \A p \in 1..N(c) : m.mem[p] = <<Id(c, p), F(Val(c, p))>>
Id1(v) == v

\* the closure was called once for every element; indices are the elements' own
Calls(c, indexed) ==
  /\ Len(c.log) = N(c)
  /\ IF c.z = 1
     THEN indexed => /\ NoDup(c.log)
                     /\ {<<e[1], e[2]>> : e \in SetOf(c.log)} = (0..(c.nr - 1)) \X (0..(c.nc - 1))
     ELSE SetOf(c.log) = {LET x == IF indexed THEN IndexOf(c, p) ELSE <<-1, -1>>
                          IN <<x[1], x[2], Id(c, p), Val(c, p)>> : p \in 1..N(c)}

None(c) == IF c.z = 1 THEN c.zc = 0 /\ c.zd = 0 ELSE Len(c.cr) = 0 /\ Len(c.dr) = 0
\* every element was dropped, once
Gone(c, new) ==
  IF c.z = 1 THEN c.dropglue = 1 => (c.zc = 0 /\ c.zd = N(c))
  ELSE IF c.dropglue = 0 THEN TRUE
  ELSE NoDup(c.dr) /\ SetOf(c.dr) = Ids(c) \cup new

Accept(c) ==
  /\ "steps" \notin DOMAIN c                       \* no crash, no panic
  /\ Pre(c)
  /\ Calls(c, c.op \in {9, 10, 11})
  /\ c.op >= 6 => c.cnt = N(c)
  /\ CASE c.op = 0 -> Same(c, c.out, FApply) /\ None(c)
       [] c.op = 1 -> Fresh(c, c.out, FMap) /\ (c.z = 0 => Gone(c, {}))
       [] c.op = 2 -> Same(c, c.out, Id1) /\ None(c)
       [] c.op = 3 -> Shape(c, c.out) /\ (\A p \in 1..N(c) : c.out.mem[p][2] = Val(c, p)) /\ Gone(c, {})
       [] c.op = 4 -> Fresh(c, c.out, FMap) /\ Same(c, c.kept, Id1) /\ (c.z = 0 => Len(c.dr) = 0)
       [] c.op = 5 -> Same(c, c.out, Id1) /\ Same(c, c.kept, Id1) /\ None(c)
       [] c.op \in {6, 9} -> Same(c, c.kept, Id1) /\ None(c)
       [] c.op \in {7, 10} -> Same(c, c.out, FApply) /\ None(c)
       [] c.op \in {8, 11} -> Gone(c, {})

Init == sid \in 1..Len(Tr) /\ k = 1
Next == \/ k = 1 /\ Accept(Tr[sid]) /\ k' = 2 /\ UNCHANGED sid
        \/ k = 2 /\ UNCHANGED vars
=============================================================================
