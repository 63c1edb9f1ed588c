------------------------------- MODULE GenIter -------------------------------
(***************************************************************************)
(* Schedules for the iterators: behaviours of IterRef.  Exhaustive (BFS    *)
(* with the schedule as part of the state: every interleaving is printed)  *)
(* or sampled (-simulate).                                                 *)
(* Flat = TRUE: the items of the outer iterator are elements, not vectors.  *)
(* Rich = FALSE: next / next_back only; TRUE: all commands.                *)
(***************************************************************************)
EXTENDS IterRef, TLC, Json
CONSTANTS L, M, Rich, Depth, Flat
VARIABLES S, h
Open(w) == IF w = 0 THEN S.live ELSE S.its[w].live
LeftOf(w) == IF w = 0 THEN S.L - S.f - S.b ELSE S.M - S.its[w].f - S.its[w].b
Cmds == IF Rich
        THEN {<<o, a>> : o \in {"n", "b"}, a \in {0}} \cup {<<o, a>> : o \in {"N", "B"}, a \in 0..2}
             \cup (IF Len(h) < 4 THEN {} ELSE {<<o, 0>> : o \in {"C", "R", "c", "z", "d"}})
        ELSE {<<"n", 0>>, <<"b", 0>>}
Init == S = Start(L, M) /\ h = <<>>
\* calls on exhausted iterators are appended by the driver; sampled
\* schedules also make them on the way
Useful(w) == Open(w) /\ (Rich \/ LeftOf(w) > 0)
\* calls on what is still there at the end: exhausted iterators stay so
RECURSIVE Tails(_)
Tails(w) == IF w > Len(S.its) THEN <<>>
            ELSE (IF S.its[w].live THEN << <<"n", w, 0>>, <<"b", w, 0>>, <<"n", w, 0>> >> ELSE <<>>)
                 \o Tails(w + 1)
Tail0 == IF S.live /\ LeftOf(0) = 0 THEN << <<"b", 0, 0>>, <<"n", 0, 0>>, <<"N", 0, 1>> >> ELSE <<>>
Outer(c) == c[1] \in Consuming /\ Len(h) < Depth \div 2
Keep(T) == IF Flat THEN [T EXCEPT !.its = <<>>] ELSE T
Go(w, c) == /\ ~(w = 0 /\ Outer(c))
            /\ S' = Keep(Step(S, c[1], w, c[2]).S)
            /\ h' = Append(h, <<c[1], w, c[2]>>)
Done == Len(h) >= Depth \/ \A w \in 0..Len(S.its) : ~Useful(w)
Stop == /\ Done /\ h # <<>> /\ h[Len(h)][1] # "."
        /\ PrintT("SCHED " \o ToJson(h \o Tails(1) \o Tail0))
        /\ h' = Append(h, <<".", 0, 0>>) /\ UNCHANGED S
Next == \/ ~Done /\ \E w \in 0..Len(S.its) : Useful(w) /\ \E c \in Cmds : Go(w, c)
        \/ Stop
=============================================================================
