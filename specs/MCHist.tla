------------------------------- MODULE MCHist -------------------------------
(***************************************************************************)
(* Exhaustive exploration of the machine.  The operations are generic in   *)
(* the elements, so a state keeps only which slots hold which shape in     *)
(* which order: before every call the elements are distinct labels         *)
(* (id = val = 1, 2, ...), and after every call they are relabelled.       *)
(* Every transition of every reachable world is checked against the        *)
(* row-of-rows reference and the laws - histories of any length.           *)
(***************************************************************************)
EXTENDS RefModel, TLC
CONSTANTS MaxDim, NSlots

VARIABLE world
T == [z |-> 0, es |-> 4, dg |-> 1, nq |-> 0]

Dims == 0..MaxDim
Slots == 0..(NSlots - 1)
Op(o, a) == [op |-> o, a |-> a, res |-> "ok", ret |-> <<>>]

RECURSIVE Relabel(_, _, _)
Relabel(W, n, base) ==
  IF n > Len(W) THEN <<>>
  ELSE <<[W[n] EXCEPT !.mem = [p \in 1..Len(W[n].mem) |-> <<base + p, base + p>>]]>>
       \o Relabel(W, n + 1, base + Len(W[n].mem))

\* closure logs of a canonical implementation (memory order)
Canon(W, e) ==
  LET a == e.a  m == W[a[1] + 1]  r == W[a[2] + 1] IN
  CASE e.op = "with_init" ->
         [e EXCEPT !.ret = [p \in 1..(a[2] * a[3]) |-> <<(p - 1) \div a[3], (p - 1) % a[3]>>]]
    [] e.op = "ewg" /\ Conformable(m, r) /\ Has(m) /\ Has(r) ->
         [e EXCEPT !.ret = [p \in 1..Size(m) |->
             <<m.mem[p][1], At(r, RowAt(m, p), ColAt(m, p))[1]>>]]
    [] e.op = "like" /\ Has(m) /\ Has(r) /\ m.nc = r.nr /\ m.nc > 0 ->
         [e EXCEPT !.ret = [p \in 1..(m.nr * r.nc) |->
             <<RowIds(m, (p - 1) \div r.nc), ColIds(r, (p - 1) % r.nc)>>]]
    [] e.op = "sc" -> [e EXCEPT !.ret = [p \in 1..Size(m) |-> m.mem[p][1]]]
    [] OTHER -> e

Shapes == Dims \X Dims
Unary(s) ==
  {Op(o, <<s>>) : o \in {"transpose", "sw", "sww", "clear", "shrink", "apply", "drop", "elems"}}
  \cup {Op(o, <<s, x>>) : o \in {"so", "sow"}, x \in {0, 1}}
  \cup {Op(o, <<s, x[1], x[2], 0>>) : o \in {"reshape", "resize"},
            x \in Shapes \cup {<<-1, 1>>, <<-1, 2>>, <<0, -1>>}}
  \cup {Op(o, <<s, x, y>>) : o \in {"swap_rows", "swap_cols"}, x \in 0..MaxDim, y \in 0..MaxDim}
  \cup {Op("swap", <<s, 0, x[1], x[2], 4, y[1], y[2]>>) : x \in Shapes, y \in {-1, 0, 2} \X {-1, 1}}
  \cup {Op("itermut", <<s, x, y>>) : x \in {0, 1}, y \in 0..2}
  \cup {Op("iter", <<s, x>>) : x \in {0, 1}}
  \cup {Op("nth", <<s, x, y>>) : x \in 0..3, y \in 0..MaxDim}
  \cup {Op("into", <<s, x, y>>) : x \in {0, 1, 2}, y \in {0, 1}}
  \cup {Op(o, <<s, x[1], x[2], 77>>) : o \in {"set", "setx"}, x \in Shapes}
  \cup {Op("par_into", <<s, 0>>)}
Create(s) ==
  {Op("new", <<s>>)}
  \cup {Op(o, <<s, x[1], x[2], 0, 5>>) : o \in {"with_default", "with_value", "with_init"},
            x \in Shapes \cup {<<-1, 1>>, <<-2, 2>>}}
  \cup {Op("rows", <<s, k>> \o l) : k \in {0, 3}, l \in {<<>>, <<0, 0>>, <<2, 1>>, <<1, 1>>, <<1, 0, 1>>}}
PairD(s, t, D) ==
  {Op(o, <<s, t>>) : o \in {"overwrite", "eq", "conf", "clone", "clone_from"}}
  \cup {Op("map", <<s, t, x>>) : x \in 0..4} \cup {Op("mapref", <<s, t, x>>) : x \in 0..3}
  \cup {Op("neg", <<s, t, x>>) : x \in {0, 1}}
  \cup {Op("sc", <<s, t, x, 3>>) : x \in 0..2}
  \cup {Op("ew", <<s, t, d, o, f>>) : d \in D, o \in {2}, f \in 0..8}
  \cup {Op("ewg", <<s, t, d, f>>) : d \in D, f \in 0..3}
  \cup {Op("mul", <<s, t, d, f>>) : d \in D, f \in 0..4}
  \cup {Op("like", <<s, t, d>>) : d \in D}
Pair(s, t) == PairD(s, t, Slots)
Calls0 ==
  UNION {Unary(s) : s \in Slots} \cup UNION {Create(s) : s \in Slots}
  \cup UNION {UNION {IF s = t THEN {} ELSE Pair(s, t) : t \in Slots} : s \in Slots}

Small(W) == \A n \in 1..Len(W) : W[n].nr \in Dims /\ W[n].nc \in Dims

Init == world = [n \in 1..NSlots |-> NoM]
Next == \E e0 \in Calls0 :
          /\ \A s \in Needs(e0) : Has(world[s + 1])
          /\ LET e == Canon(world, e0)
                 x == Apply(T, world, e)
             IN /\ Assert(Refines(world, e, x), <<"not a refinement", world, e, x>>)
                /\ Assert(Laws(world, e, x), <<"law broken", world, e, x>>)
                /\ Assert(x.res = "ok" => RetOK(T, world, e), <<"log", world, e>>)
                /\ Small(x.W)
                /\ world' = Relabel(x.W, 1, 0)
Inv == /\ \A n \in 1..NSlots : Coherent(world[n])
       /\ Cardinality(Ids(world)) = Total(world, NSlots)
=============================================================================
