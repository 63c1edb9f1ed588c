------------------------------ MODULE TraceHist ------------------------------
(***************************************************************************)
(* Trace validation: every recorded scenario (one line of the trace file)  *)
(* must be a behaviour of the Matreex machine.  One state per scenario and *)
(* event; a rejected event is a deadlock whose state names (sid, k).       *)
(***************************************************************************)
EXTENDS Matreex, Json, IOUtils, TLC

Tr == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sid, k, world
vars == <<sid, k, world>>

T == Tr[sid]
Ev == Tr[sid].steps[k]

\* ----------------------------------------------------- observed slots
WellFormed(o, z) ==
  \/ o.ord = -1
  \/ /\ o.ord \in {0, 1}
     /\ o.coh = 1                                  \* nrows*ncols = size, no overflow
     /\ o.sz > 0 => o.nr > 0 /\ o.nc > 0            \* an empty one may have a huge extent
     /\ o.sz = Len(o.mem) /\ o.sz = o.nr * o.nc
     /\ o.em = B(o.sz = 0)
     /\ z = 0 => /\ \A p \in 1..Len(o.mem) : o.mem[p][1] > 0      \* no garbage
                 /\ Len(o.at) = o.sz
                 \* get(i, j) resolves to the element at the memory position of (i, j)
                 /\ \A i \in 0..(o.nr - 1) : \A j \in 0..(o.nc - 1) :
                       o.at[i * o.nc + j + 1] = o.mem[Flat(o.ord, o.nr, o.nc, i, j) + 1][1]
ToM(o) == IF o.ord = -1 THEN NoM ELSE Mat(o.ord, o.nr, o.nc, o.mem)

Observed(W, e) ==
  [n \in 1..Len(W) |->
     IF \E x \in 1..Len(e.w) : e.w[x].k = n - 1
       THEN ToM(e.w[CHOOSE x \in 1..Len(e.w) : e.w[x].k = n - 1])
       ELSE W[n]]

\* ------------------------------------------------- expected vs observed
MatchM(x, o, cr, z) ==
  /\ x.ord = o.ord /\ x.nr = o.nr /\ x.nc = o.nc
  /\ Len(x.mem) = Len(o.mem)
  /\ z = 0 =>
       \A p \in 1..Len(x.mem) :
         /\ x.mem[p][2] = o.mem[p][2]
         /\ IF x.mem[p][1] = 0 THEN o.mem[p][1] \in cr ELSE o.mem[p][1] = x.mem[p][1]

\* every element created exactly once, dropped at most once, and exactly
\* the elements still held by matrices are alive
LedgerExact(W, O, e, t) ==
  LET cr == SetOf(e.cr)
      dr == SetOf(e.dr)
      old == Ids(W)
      new == Ids(O)
  IN
  IF t.z = 1
    THEN t.dg = 1 => Total(W, Len(W)) + e.zc - e.zd = Total(O, Len(O))
    ELSE /\ Cardinality(cr) = Len(e.cr) /\ cr \cap old = {}
         /\ Cardinality(dr) = Len(e.dr) /\ dr \subseteq (old \cup cr)
         /\ Cardinality(new) = Total(O, Len(O))               \* no duplicates
         /\ IF t.dg = 1 THEN new = (old \cup cr) \ dr ELSE new \subseteq (old \cup cr)

\* after a panic in caller code elements may be leaked, nothing else
LedgerFault(W, O, e, t) ==
  LET cr == SetOf(e.cr)
      dr == SetOf(e.dr)
      old == Ids(W)
      new == Ids(O)
  IN
  IF t.z = 1
    THEN t.dg = 1 => Total(O, Len(O)) <= Total(W, Len(W)) + e.zc - e.zd
    ELSE /\ Cardinality(cr) = Len(e.cr) /\ cr \cap old = {}
         /\ Cardinality(dr) = Len(e.dr) /\ dr \subseteq (old \cup cr)
         /\ Cardinality(new) = Total(O, Len(O))
         /\ new \subseteq ((old \cup cr) \ dr)

Fired(e) == "ff" \in DOMAIN e /\ e.ff = 1

\* The normal case: the observation is the outcome the machine prescribes.
Accept(W, e, t) ==
  /\ e.res \notin {"crash", "hang"}
  /\ \A x \in 1..Len(e.w) : WellFormed(e.w[x], t.z)
  /\ RetOK(t, W, e)
  /\ LET x == Apply(t, W, e)
         O == Observed(W, e)
         cr == SetOf(e.cr)
     IN /\ e.res = x.res
        /\ e.op \notin Logged => e.ret = x.ret
        /\ \A n \in 1..Len(W) : O[n] # x.W[n] => MatchM(x.W[n], O[n], cr, t.z)
        /\ LedgerExact(W, O, e, t)

\* A fault was injected: whatever survives is coherent and owned once.
AcceptFault(W, e, t) ==
  /\ e.res \notin {"crash", "hang"}
  /\ \A x \in 1..Len(e.w) : WellFormed(e.w[x], t.z)
  /\ LET O == Observed(W, e) IN
       /\ \A n \in 1..Len(W) : (n - 1) \notin Writes(e) => O[n] = W[n]
       /\ LedgerFault(W, O, e, t)

\* ------------------------------------------------------------ behaviour
Init == /\ sid \in 1..Len(Tr)
        /\ k = 1
        /\ world = [n \in 1..4 |-> NoM]

Step == /\ k <= Len(T.steps)
        /\ IF Fired(Ev) THEN AcceptFault(world, Ev, T) ELSE Accept(world, Ev, T)
        /\ world' = Observed(world, Ev)
        /\ k' = k + 1
        /\ UNCHANGED sid

Done == k > Len(T.steps) /\ UNCHANGED vars

Next == Step \/ Done
Spec == Init /\ [][Next]_vars

\* evaluated in every state: the coherence relation itself
Inv == \A n \in 1..4 : Coherent(world[n])
=============================================================================
