-------------------------------- MODULE Par ---------------------------------
(***************************************************************************)
(* A parallel map over the memory-order sequence: the index range [0, N)   *)
(* is divided arbitrarily, every piece is taken by some worker, which      *)
(* calls the closure on its elements one by one, writing the result at the *)
(* element's own position; the checks before the call are the sequential   *)
(* ones.  Every division, every assignment, every interleaving.            *)
(* Design = "ok"; "order": results are appended as they are finished       *)
(* (rejected); "overlap": a split leaves the middle element in both halves *)
(* (rejected).                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxN, Workers, Design
VARIABLES n, pool, busy, calls, res, out
vars == <<n, pool, busy, calls, res, out>>
F(p) == p + 100
Idle == <<0, 0>>
Init == /\ n \in 0..MaxN /\ pool = {<<0, n>>}
        /\ busy = [w \in Workers |-> Idle]
        /\ calls = [p \in 0..(MaxN - 1) |-> 0] /\ res = [p \in 0..(MaxN - 1) |-> -1] /\ out = <<>>
Split == \E s \in pool : \E m \in (s[1] + 1)..(s[2] - 1) :
           /\ pool' = (pool \ {s}) \cup {<<s[1], IF Design = "overlap" THEN m + 1 ELSE m>>, <<m, s[2]>>}
           /\ UNCHANGED <<n, busy, calls, res, out>>
Take(w) == \E s \in pool : /\ busy[w] = Idle /\ s[1] < s[2]
                           /\ pool' = pool \ {s} /\ busy' = [busy EXCEPT ![w] = s]
                           /\ UNCHANGED <<n, calls, res, out>>
Work(w) == /\ busy[w] # Idle
           /\ LET p == busy[w][1] IN
              /\ calls' = [calls EXCEPT ![p] = @ + 1]
              /\ res' = [res EXCEPT ![p] = F(p)]
              /\ out' = Append(out, F(p))
              /\ busy' = [busy EXCEPT ![w] = IF p + 1 = @[2] THEN Idle ELSE <<p + 1, @[2]>>]
           /\ UNCHANGED <<n, pool>>
Next == Split \/ \E w \in Workers : Take(w) \/ Work(w)
Done == (\A w \in Workers : busy[w] = Idle) /\ \A s \in pool : s[1] >= s[2]
Result == IF Design = "order" THEN out ELSE [k \in 1..n |-> res[k - 1]]
Once == \A p \in 0..(MaxN - 1) : calls[p] <= 1
Equal == Done => /\ Result = [k \in 1..n |-> F(k - 1)]
                 /\ \A p \in 0..(n - 1) : calls[p] = 1
=============================================================================
