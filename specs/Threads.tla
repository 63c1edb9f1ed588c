------------------------------- MODULE Threads -------------------------------
(***************************************************************************)
(* Rows (columns) of one matrix mutated on several threads.  The outer     *)
(* iterator hands out vectors from either end; a vector goes to any        *)
(* worker; a worker mutates its elements one by one, a read and a write    *)
(* each, interleaved with the others in any way.                           *)
(* Elements of class Send = FALSE share a counter without synchronisation  *)
(* (as Rc does): touching one reads and writes that counter.  The type     *)
(* checker admits a program that moves vectors to other threads only if    *)
(* the class permits.  Sync = FALSE: a shared reference to an iterator     *)
(* allows an unsynchronised update through it.                             *)
(* Variants: "overlap" (a vector is one element too long), "dup" (a vector *)
(* is handed out twice, as a cloned iterator would), "nosend", "nosync"    *)
(* (the bound is missing from the unsafe impl).                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, M, Workers, Variant
Main == 0
Vec == 0..(N - 1)
\* element identities of vector i (positions; any layout is a renaming)
Elems(i) == LET last == IF Variant = "overlap" THEN i * M + M ELSE i * M + M - 1
            IN {p \in (i * M)..last : p < N * M}
F(v, i) == 2 * v + i + 1
VARIABLES send, sync,          \* class of the element type
          front, back,         \* vectors not yet handed out: front..back-1
          todo,                \* worker -> set of <<vector, element>> to do
          reg,                 \* worker -> read but not yet written: <<>> or <<i, p, v, counter>>
          data, counter, touched, peeks
vars == <<send, sync, front, back, todo, reg, data, counter, touched, peeks>>
MoveOk == send \/ Variant = "nosend"
ShareOk == sync \/ Variant = "nosync"
Init == /\ send \in BOOLEAN /\ sync \in BOOLEAN
        /\ front = 0 /\ back = N
        /\ todo = [w \in Workers |-> {}] /\ reg = [w \in Workers |-> <<>>]
        /\ data = [p \in 0..(N * M - 1) |-> p] /\ counter = 0
        /\ touched = 0 /\ peeks = 0
Give(w, i) == /\ w = Main \/ MoveOk
              /\ todo' = [todo EXCEPT ![w] = @ \cup {<<i, p>> : p \in Elems(i)}]
HandOut == \E w \in Workers :
  /\ front < back
  /\ \/ Give(w, front) /\ front' = front + 1 /\ UNCHANGED back
     \/ Give(w, back - 1) /\ back' = back - 1 /\ UNCHANGED front
     \/ /\ Variant = "dup" /\ front = 0
        /\ \E w2 \in Workers \ {w} : /\ MoveOk
             /\ todo' = [todo EXCEPT ![w] = @ \cup {<<0, p>> : p \in Elems(0)},
                                     ![w2] = @ \cup {<<0, p>> : p \in Elems(0)}]
        /\ front' = 1 /\ UNCHANGED back
  /\ UNCHANGED <<send, sync, reg, data, counter, touched, peeks>>
Read(w) == /\ reg[w] = <<>>
           /\ \E x \in todo[w] :
                /\ todo' = [todo EXCEPT ![w] = @ \ {x}]
                /\ reg' = [reg EXCEPT ![w] = <<x[1], x[2], data[x[2]], counter>>]
           /\ UNCHANGED <<send, sync, front, back, data, counter, touched, peeks>>
Write(w) == /\ reg[w] # <<>>
            /\ LET x == reg[w] IN
               /\ data' = [data EXCEPT ![x[2]] = F(x[3], x[1])]
               \* a Send element brings no hidden sharing
               /\ counter' = IF send THEN counter ELSE x[4] + 1
               /\ touched' = IF send THEN touched ELSE touched + 1
            /\ reg' = [reg EXCEPT ![w] = <<>>]
            /\ UNCHANGED <<send, sync, front, back, todo, peeks>>
\* two threads use a shared reference to one iterator at the same time: with
\* elements that are not Sync that is an unsynchronised update
Peek == /\ peeks < 2 /\ (ShareOk \/ peeks = 0)
        /\ peeks' = peeks + 1
        /\ UNCHANGED <<send, sync, front, back, todo, reg, data, counter, touched>>
Next == HandOut \/ Peek \/ \E w \in Workers : Read(w) \/ Write(w)
Reach(w) == {x[2] : x \in todo[w]} \cup (IF reg[w] = <<>> THEN {} ELSE {reg[w][2]})
Disjoint == \A v, w \in Workers : v # w => Reach(v) \cap Reach(w) = {}
Finished == front = back /\ \A w \in Workers : todo[w] = {} /\ reg[w] = <<>>
Sequential == Finished => \A i \in Vec : \A p \in (i * M)..(i * M + M - 1) : data[p] = F(p, i)
NoLostUpdate == counter = touched \/ \E w \in Workers : reg[w] # <<>>
NoSharedUpdate == peeks = 2 => sync
=============================================================================
