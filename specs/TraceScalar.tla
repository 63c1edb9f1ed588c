---------------------------- MODULE TraceScalar -----------------------------
(***************************************************************************)
(* Validates real matrix-scalar operators (C18).  A line: op, form, the    *)
(* type (f, bits, sg), oc (overflow is checked in this build), ord, nr,    *)
(* nc, s, e (logical elements row by row); res, post = <<order, nrows,     *)
(* ncols>>, out (elements in memory order), keep (borrowed operands are as *)
(* they were).                                                             *)
(***************************************************************************)
EXTENDS Scalar, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, k
vars == <<sid, k>>

Results(c) == [i \in 1..Len(c.e) |-> Element([f |-> c.f, bits |-> c.bits, sg |-> c.sg], c.op, c.form, c.e[i], c.s)]
\* logical index (from 1) of memory position p (from 0)
Logical(c, p) == IF c.ord = 0 THEN p + 1 ELSE (p % c.nr) * c.nc + (p \div c.nr) + 1
Accept(c) ==
  LET R == Results(c)
      stops(x) == x[1] = "panic" \/ (x[1] = "over" /\ c.oc = 1)
  IN IF \E i \in 1..Len(R) : stops(R[i])
     THEN c.res = "panic"
     ELSE /\ c.res = "ok"
          /\ c.post = <<c.ord, c.nr, c.nc>>
          /\ Len(c.out) = c.nr * c.nc
          /\ \A p \in 0..(Len(c.out) - 1) : c.out[p + 1] = R[Logical(c, p)][2]
          /\ c.keep = 1
Init == sid \in 1..Len(Tr) /\ k = 1
Next == \/ k = 1 /\ "res" \in DOMAIN Tr[sid] /\ Accept(Tr[sid]) /\ k' = 2 /\ UNCHANGED sid
        \/ k = 2 /\ UNCHANGED vars
=============================================================================
