---------------------------- MODULE TraceProduct ----------------------------
EXTENDS Product, Json, IOUtils, TLC
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, k
vars == <<sid, k>>
Init == sid \in 1..Len(Tr) /\ k = 1
Next == \/ k = 1 /\ Accept(Tr[sid]) /\ k' = 2 /\ UNCHANGED sid
        \/ k = 2 /\ UNCHANGED vars
=============================================================================
