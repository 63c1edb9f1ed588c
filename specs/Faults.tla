------------------------------- MODULE Faults -------------------------------
(***************************************************************************)
(* Micro-step design model of the operations that run caller code while a  *)
(* matrix is reachable.  An operation is a list of atomic micro-steps; at  *)
(* every step marked `user` caller code runs and may panic, which abandons *)
(* the rest of the list and unwinds (local owners are dropped).  Checked:  *)
(*   Safe - at every caller-code point and after every unwind the matrix   *)
(*     describes exactly the initialised elements of its buffer;           *)
(*   Once - no element is owned twice or dropped twice.                    *)
(*                                                                         *)
(* A matrix is <<rows, cols, buf>>; buf is the sequence of owned ids       *)
(* (0 = uninitialised memory); `loc` the ids owned by the running call;    *)
(* `dead` the dropped ids, `twice` records a second drop.  ShapeFirst = TRUE gives *)
(* the variant of resize that stores the shape before the caller's Default *)
(* code runs; it must be refuted (configuration FaultsBad).                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxDim, ShapeFirst

Dims == 0..MaxDim
VARIABLES nr, nc, buf, loc, dead, fresh, op, pc, arg, twice
vars == <<nr, nc, buf, loc, dead, fresh, op, pc, arg, twice>>
Range(s) == {s[i] : i \in 1..Len(s)}
Kill(s) == /\ dead' = dead \cup Range(s)
           /\ twice' = (twice \/ Range(s) \cap dead # {} \/ Cardinality(Range(s)) # Len(s))
Keep == UNCHANGED <<dead, twice>>

\* ids of the initial elements are 1..n, later ones count on
Init == /\ nr \in Dims /\ nc \in Dims
        /\ buf = [p \in 1..(nr * nc) |-> p]
        /\ loc = <<>> /\ dead = {} /\ fresh = nr * nc + 1
        /\ op = "idle" /\ pc = 0 /\ arg = <<0, 0>> /\ twice = FALSE

Idle == op = "idle"
Begin(o, a) == op' = o /\ pc' = 0 /\ arg' = a /\ UNCHANGED <<nr, nc, buf, loc, dead, fresh, twice>>

\* fresh is bounded so that the state space is finite
Room(n) == fresh + n <= 3 * MaxDim * MaxDim + 2

Start ==
  /\ Idle
  /\ \/ \E r \in Dims, c \in Dims : Room(r * c) /\ Begin("resize", <<r, c>>)
     \/ Begin("clear", <<0, 0>>)
     \/ Begin("apply", <<0, 0>>)
     \/ Room(nr * nc) /\ Begin("overwrite", <<0, 0>>)
     \/ Room(nr * nc) /\ Begin("map", <<0, 0>>)

Finish == op' = "idle" /\ pc' = 0 /\ arg' = <<0, 0>>
\* unwinding: the call's own values are dropped (no further panics)
Unwind == /\ Finish /\ Kill(loc) /\ loc' = <<>>

\* ---- resize: grow with Default one element at a time, or truncate, then
\* ---- store the shape; `user` points: every Default, every drop
N == arg[1] * arg[2]
Resize ==
  /\ op = "resize"
  /\ \/ /\ ShapeFirst /\ pc = 0
        /\ nr' = arg[1] /\ nc' = arg[2] /\ pc' = 1
        /\ UNCHANGED <<buf, loc, dead, fresh, op, arg, twice>>
     \/ /\ (pc = 1 \/ ~ShapeFirst) /\ Len(buf) < N
        /\ \/ \* Default succeeds
              /\ buf' = Append(buf, fresh) /\ fresh' = fresh + 1
              /\ UNCHANGED <<nr, nc, loc, dead, op, pc, arg, twice>>
           \/ \* Default panics: the elements appended so far must go
              \* again unless the matrix already describes them
              IF ShapeFirst
                THEN Unwind /\ UNCHANGED <<nr, nc, buf, fresh>>
                ELSE /\ Finish
                     /\ buf' = SubSeq(buf, 1, nr * nc)
                     /\ Kill(SubSeq(buf, nr * nc + 1, Len(buf)))
                     /\ UNCHANGED <<nr, nc, loc, fresh>>
     \/ /\ (pc = 1 \/ ~ShapeFirst) /\ Len(buf) > N
        \* Vec::truncate shortens first, then drops the tail; a panicking drop
        \* does not stop the drop of the others
        /\ buf' = SubSeq(buf, 1, N)
        /\ Kill(SubSeq(buf, N + 1, Len(buf)))
        /\ \/ nr' = arg[1] /\ nc' = arg[2] /\ Finish
           \/ nr' = arg[1] /\ nc' = arg[2] /\ Finish  \* drop panicked: shape was stored before
        /\ UNCHANGED <<loc, fresh>>
     \/ /\ (pc = 1 \/ ~ShapeFirst) /\ Len(buf) = N
        /\ nr' = arg[1] /\ nc' = arg[2] /\ Finish
        /\ UNCHANGED <<buf, loc, dead, fresh, twice>>

\* ---- clear: the shape goes first, then the elements are dropped
Clear ==
  /\ op = "clear"
  /\ nr' = 0 /\ nc' = 0 /\ Kill(buf) /\ buf' = <<>> /\ Finish
  /\ UNCHANGED <<loc, fresh>>

\* ---- apply: caller code mutates one element after the other
Apply ==
  /\ op = "apply"
  /\ \/ pc < Len(buf) /\ pc' = pc + 1 /\ UNCHANGED <<op, arg, nr, nc, buf, loc, dead, fresh, twice>>
     \/ Finish /\ UNCHANGED <<nr, nc, buf, loc, dead, fresh, twice>>          \* end or panic

\* ---- overwrite: clone a source element (may panic), drop the old one, store
Overwrite ==
  /\ op = "overwrite"
  /\ \/ /\ pc < Len(buf) /\ loc = <<>>
        /\ loc' = <<fresh>> /\ fresh' = fresh + 1
        /\ UNCHANGED <<nr, nc, buf, dead, op, pc, arg, twice>>
     \/ /\ pc < Len(buf) /\ loc # <<>>
        \* the old value is dropped; if its drop panics the new one is stored all the same
        /\ Kill(<<buf[pc + 1]>>)
        /\ buf' = [buf EXCEPT ![pc + 1] = loc[1]]
        /\ loc' = <<>>
        /\ \/ pc' = pc + 1 /\ UNCHANGED <<op, arg>>
           \/ Finish
        /\ UNCHANGED <<nr, nc, fresh>>
     \/ /\ pc < Len(buf) /\ loc = <<>> /\ Finish                             \* Clone panics
        /\ UNCHANGED <<nr, nc, buf, loc, dead, fresh, twice>>
     \/ /\ pc = Len(buf) /\ Finish /\ UNCHANGED <<nr, nc, buf, loc, dead, fresh, twice>>

\* ---- map: consumes the matrix; input elements move into the closure one by
\* ---- one, outputs gather in a fresh vector; assembled at the end
Map ==
  /\ op = "map"
  /\ \/ /\ pc < Len(buf)
        /\ \* closure: consumes buf[pc+1], returns a new element
           /\ Kill(<<buf[pc + 1]>>)
           /\ loc' = Append(loc, fresh) /\ fresh' = fresh + 1 /\ pc' = pc + 1
           /\ UNCHANGED <<nr, nc, buf, op, arg>>
     \/ /\ pc < Len(buf)
        /\ \* closure panics while it owns its argument: everything is dropped
           /\ Kill(SubSeq(buf, pc + 1, Len(buf)) \o loc)
           /\ nr' = 0 /\ nc' = 0 /\ buf' = <<>> /\ loc' = <<>>
           /\ Finish /\ UNCHANGED <<fresh>>
     \/ /\ pc = Len(buf)
        /\ buf' = loc /\ loc' = <<>> /\ Finish
        /\ UNCHANGED <<nr, nc, dead, fresh, twice>>

Next == Start \/ Resize \/ Clear \/ Apply \/ Overwrite \/ Map
Spec == Init /\ [][Next]_vars

\* the matrix is reachable for the caller whenever no call is running
Safe == Idle => /\ nr * nc = Len(buf)
                /\ 0 \notin Range(buf)
                /\ loc = <<>>
\* while map runs, the moved-out prefix of buf is owned by nobody
Live == IF op = "map" THEN SubSeq(buf, pc + 1, Len(buf)) ELSE buf
Once == /\ ~twice
        /\ Cardinality(Range(Live \o loc)) = Len(Live) + Len(loc)
        /\ Range(Live \o loc) \cap dead = {}
        /\ Range(Live \o loc) \cup dead = 1..(fresh - 1)      \* nothing leaked either
=============================================================================
