------------------------------ MODULE RenderMC -------------------------------
(***************************************************************************)
(* The design of the formatter: a cache of the elements' lines in memory   *)
(* order, consumed cell by cell (row, line, column) through a flat index   *)
(* computed from (row, col), order and shape.  An element is <<number of   *)
(* lines, width>>.  Variants: the flat index ignores the order ("rowmajor")*)
(* or the shape's memory view ("transposed"); the width is taken from the  *)
(* first line only ("first"); the height from the first element ("height");*)
(* the widest element is missed when it is the last ("last").              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxDim, MaxH, MaxW, Variant
\* lines of an element: widths of its lines
LinesOf == UNION {[1..h -> 0..MaxW] : h \in 1..MaxH}
Max(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
VARIABLES nr, nc, ord, data,      \* the matrix: element lines in memory order
          cache, out, row, line, col
vars == <<nr, nc, ord, data, cache, out, row, line, col>>
Flat(r, c) ==
  CASE Variant = "rowmajor" -> r * nc + c
    [] Variant = "transposed" -> IF ord = 0 THEN r * nc + c ELSE c * nc + r
    [] OTHER -> IF ord = 0 THEN r * nc + c ELSE c * nr + r
True(r, c) == IF ord = 0 THEN r * nc + c ELSE c * nr + r
Ids == 0..(nr * nc - 1)
Seen == IF Variant = "last" THEN Ids \ {nr * nc - 1} ELSE Ids
Width == Max(IF Variant = "first" THEN {data[i][1] : i \in Seen}
             ELSE UNION {{data[i][k] : k \in 1..Len(data[i])} : i \in Seen})
Height == IF Variant = "height" THEN Len(data[0]) ELSE Max({Len(data[i]) : i \in Ids})
Init == /\ nr \in 1..MaxDim /\ nc \in 1..MaxDim /\ ord \in {0, 1}
        /\ data \in [0..(nr * nc - 1) -> LinesOf]
        /\ cache = [i \in 0..(nr * nc - 1) |-> 1]     \* next line of each element
        /\ out = <<>> /\ row = 0 /\ line = 0 /\ col = 0
Cell(i) == IF i \in Ids /\ cache[i] <= Len(data[i])
           THEN [id |-> i, k |-> cache[i], w |-> IF data[i][cache[i]] > Width THEN data[i][cache[i]] ELSE Width]
           ELSE [id |-> -1, k |-> 0, w |-> IF Width = 0 THEN 1 ELSE Width]
Put == /\ row < nr
       /\ LET i == Flat(row, col)
          IN /\ out' = Append(out, [r |-> row, l |-> line, c |-> col, cell |-> Cell(i)])
             /\ cache' = IF i \in Ids THEN [cache EXCEPT ![i] = @ + 1] ELSE cache
       /\ IF col + 1 < nc THEN col' = col + 1 /\ UNCHANGED <<row, line>>
          ELSE /\ col' = 0
               /\ IF line + 1 < Height THEN line' = line + 1 /\ UNCHANGED row
                  ELSE line' = 0 /\ row' = row + 1
       /\ UNCHANGED <<nr, nc, ord, data>>
Next == Put
\* no index outside the cache
InCache == row < nr => Flat(row, col) \in Ids
\* each cell shows the next line of the element at its place
Placed == \A n \in 1..Len(out) :
  LET o == out[n] IN o.cell.id = -1 \/ (o.cell.id = True(o.r, o.c) /\ o.cell.k = o.l + 1)
\* when all is printed, every line of every element has been shown once
Complete == row = nr => \A i \in Ids :
  {o \in {out[n] : n \in 1..Len(out)} : o.cell.id = i} # {} /\
  \A k \in 1..Len(data[i]) : Cardinality({n \in 1..Len(out) : out[n].cell.id = i /\ out[n].cell.k = k}) = 1
\* cells of one matrix are equally wide
Even == (\E i \in Ids : \E k \in 1..Len(data[i]) : data[i][k] > 0) =>
        \A m, n \in 1..Len(out) : out[m].cell.w = out[n].cell.w
=============================================================================
