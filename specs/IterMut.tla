------------------------------- MODULE IterMut -------------------------------
(***************************************************************************)
(* The pointer machine of src/iter/iter_mut.rs on a machine word of W      *)
(* addresses, refined against IterRef.  An element buffer of Major*Minor   *)
(* elements of Size bytes starts at address Base; zero-sized elements and  *)
(* empty vectors are only counted.  All interleavings of next, next_back   *)
(* and len on the outer iterator and on all the iterators it has yielded.  *)
(*                                                                         *)
(* Design = "fixed": the committed design.                                 *)
(* Design = "onepast": `upper` is one stride past the end (rejected: it    *)
(*   forms pointers outside the buffer).                                   *)
(* Design = "zstbase": zero-sized elements are counted from the buffer     *)
(*   address instead of 1 (rejected: the address counter overflows, this   *)
(*   was the original code).                                               *)
(* Design = "noempty": a matrix without elements yields no vectors         *)
(*   (rejected: this was the original code).                               *)
(***************************************************************************)
EXTENDS IterRef, FiniteSets, TLC
CONSTANTS W, MaxDim, MaxElems, Sizes, Design

VARIABLES cfg,      \* [axis, major, minor, size, base]
          ref,      \* the IterRef world
          outer,    \* [lo, up, live, as, vs, vl]
          inner,    \* sequence of [lo, up, live, stride]
          ptrs,     \* set of <<address, stride context>> formed in the last step
          handed,   \* sequence of element indices handed out as &mut
          bad       \* arithmetic overflow / null pointer in the last step
vars == <<cfg, ref, outer, inner, ptrs, handed, bad>>

Cfgs == {[axis |-> x, major |-> M, minor |-> m, size |-> s, base |-> bs] :
           x \in {0, 1}, M \in 0..MaxDim, m \in 0..MaxDim, s \in Sizes, bs \in {1, 4}}
Elems(c) == c.major * c.minor
\* the counting addresses of zero-sized shapes may need the whole word
Fits(c) == Elems(c) <= MaxElems /\ Elems(c) < W /\ (c.size > 0 => c.base + Elems(c) * c.size < W)

AxLen(c) == IF c.axis = 0 THEN c.major ELSE c.minor
VecLen(c) == IF c.axis = 0 THEN c.minor ELSE c.major
AxStride(c) == IF c.axis = 0 THEN c.minor ELSE 1
VecStride(c) == IF c.axis = 0 THEN 1 ELSE c.minor
\* memory index of item j of vector v
Mem(c, v, j) == v * AxStride(c) + j * VecStride(c)

ESize(c, o) == IF o.vl = 0 THEN 0 ELSE c.size      \* Layout::elem_size
CountBase(c) == IF Design = "zstbase" THEN c.base ELSE 1

OuterStart(c) ==
  IF Elems(c) = 0
  THEN IF Design = "noempty" \/ AxLen(c) = 0
       THEN [lo |-> 1, up |-> 1, live |-> FALSE, as |-> 1, vs |-> 1, vl |-> 0]
       ELSE [lo |-> 1, up |-> AxLen(c), live |-> TRUE, as |-> 1, vs |-> 1, vl |-> 0]
  ELSE LET lo == IF c.size = 0 THEN CountBase(c) ELSE c.base
           off == AxStride(c) * (AxLen(c) - 1 + IF Design = "onepast" THEN 1 ELSE 0)
       IN [lo |-> lo, up |-> lo + off * (IF c.size = 0 THEN 1 ELSE c.size), live |-> TRUE,
           as |-> AxStride(c), vs |-> VecStride(c), vl |-> VecLen(c)]
InnerStart(c, p, stride, len) ==
  IF len = 0 THEN [lo |-> 1, up |-> 1, live |-> FALSE, stride |-> 1]
  ELSE LET lo == IF c.size = 0 THEN CountBase(c) ELSE p
           off == (len - 1 + IF Design = "onepast" THEN 1 ELSE 0) * stride
       IN [lo |-> lo, up |-> lo + off * (IF c.size = 0 THEN 1 ELSE c.size), live |-> TRUE,
           stride |-> stride]

Real(c) == c.size > 0 /\ Elems(c) > 0              \* addresses are pointers
Formed(c, S) == IF Real(c) THEN S ELSE {}
InBuffer(c, p) == p >= c.base /\ p < c.base + Elems(c) * c.size
Overflow(S) == \E p \in S : p <= 0 \/ p >= W

Mul1(n) == IF n = 0 THEN 1 ELSE n
OuterLen(c, o) == IF ~o.live THEN 0
                  ELSE (IF Design = "onepast" THEN 0 ELSE 1) + (o.up - o.lo) \div (o.as * Mul1(ESize(c, o)))
InnerLen(c, i) == IF ~i.live THEN 0
                  ELSE (IF Design = "onepast" THEN 0 ELSE 1) + (i.up - i.lo) \div (i.stride * Mul1(c.size))

Init ==
  /\ cfg \in {c \in Cfgs : Fits(c)}
  /\ ref = Start(AxLen(cfg), VecLen(cfg))
  /\ outer = OuterStart(cfg)
  /\ inner = <<>> /\ handed = <<>>
  /\ ptrs = Formed(cfg, {outer.lo, outer.up})
  /\ bad = Overflow({outer.lo, outer.up})

\* one end moves; the other design compares before moving
MoveOuter(op) ==
  LET o == outer
      st == o.as * Mul1(ESize(cfg, o))
      one == Design = "onepast"
  IN
  IF ~o.live \/ (one /\ o.lo = o.up)
  THEN /\ ref' = Step(ref, op, 0, 0).S
       /\ UNCHANGED <<cfg, outer, inner, ptrs, handed, bad>>
  ELSE
    LET last == ~one /\ o.lo = o.up
        p == IF op = "n" THEN o.lo ELSE IF one THEN o.up - st ELSE o.up
        it == InnerStart(cfg, p, o.vs, o.vl)
        o2 == IF last THEN [o EXCEPT !.live = FALSE]
              ELSE IF op = "n" THEN [o EXCEPT !.lo = @ + st] ELSE [o EXCEPT !.up = @ - st]
        S == {p, o2.lo, o2.up}
    IN /\ outer' = o2
       /\ inner' = Append(inner, it)
       /\ ref' = Step(ref, op, 0, 0).S
       /\ ptrs' = Formed(cfg, S \cup (IF o.vl = 0 THEN {} ELSE {it.lo, it.up}))
       /\ bad' = Overflow(S \cup {it.lo, it.up})
       /\ UNCHANGED <<cfg, handed>>

MoveInner(op, w) ==
  LET i == inner[w]
      st == i.stride * Mul1(cfg.size)
      one == Design = "onepast"
  IN
  IF ~i.live \/ (one /\ i.lo = i.up)
  THEN /\ ref' = Step(ref, op, w, 0).S
       /\ UNCHANGED <<cfg, outer, inner, ptrs, handed, bad>>
  ELSE
    LET last == ~one /\ i.lo = i.up
        p == IF op = "n" THEN i.lo ELSE IF one THEN i.up - st ELSE i.up
        i2 == IF last THEN [i EXCEPT !.live = FALSE]
              ELSE IF op = "n" THEN [i EXCEPT !.lo = @ + st] ELSE [i EXCEPT !.up = @ - st]
        r == Step(ref, op, w, 0)
        \* the element a pointer stands for; a counter stands for what IterRef says
        idx == IF Real(cfg) THEN (p - cfg.base) \div cfg.size
               ELSE IF r.out = <<>> THEN -1 ELSE Mem(cfg, ref.its[w].v, r.out[1])
    IN /\ inner' = [inner EXCEPT ![w] = i2]
       /\ ref' = r.S
       /\ handed' = Append(handed, <<idx, IF r.out = <<>> THEN -1
                                            ELSE Mem(cfg, ref.its[w].v, r.out[1])>>)
       /\ ptrs' = Formed(cfg, {p, i2.lo, i2.up})
       /\ bad' = Overflow({p, i2.lo, i2.up})
       /\ UNCHANGED <<cfg, outer>>

Next == \E op \in {"n", "b"} :
          MoveOuter(op) \/ \E w \in 1..Len(inner) : MoveInner(op, w)
Spec == Init /\ [][Next]_vars

SetOf(s) == {s[k] : k \in 1..Len(s)}
PointersInBuffer == \A p \in ptrs : InBuffer(cfg, p)
NoOverflow == ~bad
\* every reference is the one the reference model hands out
RightElement == \A k \in 1..Len(handed) : handed[k][1] = handed[k][2] /\ handed[k][1] \in 0..(Elems(cfg) - 1)
AtMostOnce == Cardinality(SetOf(handed)) = Len(handed)
\* len() is the number of items still to come
Lengths ==
  /\ OuterLen(cfg, outer) = ref.L - ref.f - ref.b
  /\ Len(inner) = Len(ref.its)
  /\ \A w \in 1..Len(inner) : InnerLen(cfg, inner[w]) = ref.M - ref.its[w].f - ref.its[w].b
Exhausted == ref.f + ref.b = ref.L /\ \A w \in 1..Len(ref.its) : ref.its[w].f + ref.its[w].b = ref.M
ExactlyOnce == Exhausted => Len(handed) = Elems(cfg) /\ Len(inner) = AxLen(cfg)
\* every vector is yielded once: the reference model itself
VectorsOnce == Cardinality({ref.its[w].v : w \in 1..Len(ref.its)}) = Len(ref.its)
=============================================================================
