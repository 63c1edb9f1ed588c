------------------------------ MODULE GenThreads ------------------------------
(***************************************************************************)
(* Interleavings for the workers of module Threads, one vector after the   *)
(* other per worker: every one of them (BFS) or sampled (-simulate).       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS L, M, NT
VARIABLES left, todo, held, h
vars == <<left, todo, held, h>>
W == 0..(NT - 1)
Init == left = L /\ todo = [w \in W |-> 0] /\ held = [w \in W |-> FALSE] /\ h = <<>>
Take(w, e) == /\ left > 0 /\ left' = left - 1 /\ todo' = [todo EXCEPT ![w] = @ + M] /\ UNCHANGED held
              /\ h' = Append(h, <<e, w>>)
Read(w) == /\ ~held[w] /\ todo[w] > 0 /\ held' = [held EXCEPT ![w] = TRUE]
           /\ todo' = [todo EXCEPT ![w] = @ - 1] /\ UNCHANGED left
           /\ h' = Append(h, <<"r", w>>)
Write(w) == /\ held[w] /\ held' = [held EXCEPT ![w] = FALSE] /\ UNCHANGED <<left, todo>>
            /\ h' = Append(h, <<"w", w>>)
Done == left = 0 /\ \A w \in W : todo[w] = 0 /\ ~held[w]
Stop == /\ Done /\ h # <<>> /\ h[Len(h)][1] # "."
        /\ PrintT("SCHED " \o ToJson(h))
        /\ h' = Append(h, <<".", 0>>) /\ UNCHANGED <<left, todo, held>>
Next == \/ \E w \in W : Take(w, "f") \/ Take(w, "b") \/ Read(w) \/ Write(w)
        \/ Stop
=============================================================================
