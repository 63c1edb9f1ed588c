-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Program generation: random walks of the machine (TLC -simulate).  Every *)
(* walk is printed as one program; arguments are drawn so that most calls  *)
(* succeed, with a share of calls that must fail.                          *)
(***************************************************************************)
EXTENDS MCHist, Json, TLCExt
CONSTANTS Depth, MaxSize

VARIABLE prog

R(S) == RandomElement(S)
One(n) == RandomElement(1..n) = 1
LiveSlots(W) == {s \in Slots : Has(W[s + 1])}
Factors(n) == {x \in Dims \X Dims : x[1] * x[2] = n}
Dim(n) == R(0..(MaxDim + 1))
Idx(n) == IF One(6) THEN R({n, n + 1, -1}) ELSE IF n = 0 THEN 0 ELSE R(0..(n - 1))

GCreate(W) ==
  LET s == IF LiveSlots(W) # Slots THEN R(Slots \ LiveSlots(W)) ELSE R(Slots)
      r == IF One(8) THEN 0 ELSE R(1..MaxDim)
      c == IF One(8) THEN 0 ELSE R(1..MaxDim)
      k == R(1..14)
  IN CASE k = 1 -> Op("new", <<s>>)
       [] k = 2 -> Op("with_capacity", <<s, R(0..9)>>)
       [] k = 3 -> Op("with_default", <<s, r, c, R(0..2)>>)
       [] k = 4 -> Op("with_value", <<s, r, c, R(0..2), R(1..90)>>)
       [] k \in 5..8 -> Op("with_init", <<s, r, c, R(0..2)>>)
       [] k = 9 -> Op("rows", <<s, R({0, 1, 3, 4})>> \o [n \in 1..r |-> IF One(12) THEN R(0..2) ELSE c])
       [] k = 10 -> Op("rows", <<s, R(0..4)>> \o [n \in 1..Min(r, 6) |-> c])
       [] k = 11 -> Op("mac", <<s, R(0..30)>>)
       [] k = 12 -> Op("from_row", <<s, R(0..2), r>>)
       [] k = 13 -> Op("from_col", <<s, R(0..2), r>>)
       [] OTHER -> Op("with_default", <<s, R({-1, -2}), R(1..3), R(0..2)>>)

GOrder(s) ==
  LET k == R(1..7) IN
  CASE k \in 1..2 -> Op("transpose", <<s>>) [] k \in 3..4 -> Op("sw", <<s>>) [] k = 5 -> Op("sww", <<s>>)
    [] k = 6 -> Op("so", <<s, R(0..1)>>) [] OTHER -> Op("sow", <<s, R(0..1)>>)

GShape(W, s) ==
  LET m == W[s + 1]  f == Factors(Size(m))  k == R(1..12) IN
  CASE k \in 1..4 /\ f # {} -> (LET x == R(f) IN Op("reshape", <<s, x[1], x[2], R(0..2)>>))
    [] k = 5 -> Op("reshape", <<s, Dim(0), Dim(0), R(0..2)>>)
    [] k = 6 -> Op("reshape", <<s, R({-1, -2, -4}), R({1, 2, 3, -1}), R(0..2)>>)
    [] k \in 7..9 -> Op("resize", <<s, Dim(0), Dim(0), R(0..2)>>)
    [] k = 10 -> Op("resize", <<s, R({-1, -2}), R({2, 3, -1}), R(0..2)>>)
    [] k = 11 -> IF One(3) THEN Op("clear", <<s>>) ELSE Op("resize", <<s, m.nr + 1, m.nc, 0>>)
    [] OTHER -> IF One(2) THEN Op("shrink", <<s>>) ELSE Op("shrink_to", <<s, R(0..30)>>)

GSwap(W, s) ==
  LET m == W[s + 1]  k == R(1..3) IN
  CASE k = 1 -> Op("swap_rows", <<s, Idx(m.nr), Idx(m.nr)>>)
    [] k = 2 -> Op("swap_cols", <<s, Idx(m.nc), Idx(m.nc)>>)
    [] OTHER ->
       LET i == R(0..4)  j == R(0..4)
           w(q, n) == IF q = 4 THEN R(-7..7) ELSE Idx(n)
       IN Op("swap", <<s, i, w(i, m.nr), w(i, m.nc), j, w(j, m.nr), w(j, m.nc)>>)

GBinary(W, s) ==
  LET m == W[s + 1]
      others == LiveSlots(W) \ {s}
      conf == {t \in others : Conformable(m, W[t + 1])}
      d == R(Slots)
      f == R(0..8)
  IN IF others = {} \/ (conf = {} /\ ~One(3))
       THEN Op("clone", <<s, d>>)
     ELSE LET t == IF conf # {} /\ ~One(6) THEN R(conf) ELSE R(others)
              k == R(1..10)
          IN CASE k \in 1..3 -> Op("ewg", <<s, t, d, R(0..3)>>)
               [] k \in 4..7 -> Op("ew", <<s, t, d, IF f >= 3 THEN R(1..2) ELSE R(1..5), f>>)
               [] k = 8 -> Op("eq", <<s, t>>)
               [] k = 9 -> Op("conf", <<s, t>>)
               [] OTHER -> Op("overwrite", <<s, R(others)>>)

GMul(W, s) ==
  LET m == W[s + 1]
      others == LiveSlots(W) \ {s}
      conf == {t \in others : m.nc = W[t + 1].nr}
      d == R(Slots)
  IN IF others = {} THEN Op("mul", <<s, s, d, 4>>)
     ELSE LET t == IF conf # {} /\ ~One(6) THEN R(conf) ELSE R(others) IN
          IF One(3) THEN Op("like", <<s, t, d>>) ELSE Op("mul", <<s, t, d, R(0..4)>>)

GMap(s) ==
  LET d == R(Slots)  k == R(1..9) IN
  CASE k = 1 -> Op("apply", <<s>>) [] k = 2 -> Op("map", <<s, d, R(0..4)>>)
    [] k = 3 -> Op("mapref", <<s, d, R(0..2)>>) [] k = 4 -> Op("par_apply", <<s>>)
    [] k = 5 -> Op("par_map", <<s, d, R(0..1)>>) [] k = 6 -> Op("par_mapref", <<s, d, 0>>)
    [] k = 7 -> Op("neg", <<s, d, R(0..1)>>) [] OTHER -> Op("sc", <<s, d, R(0..2), R(0..9)>>)

GMove(W, s) ==
  LET d == R(Slots)  k == R(1..8)  others == LiveSlots(W) \ {s} IN
  CASE k \in 1..3 -> Op("clone", <<s, d>>)
    [] k \in 4..5 -> IF others = {} THEN Op("clone", <<s, d>>) ELSE Op("clone_from", <<s, R(others)>>)
    [] k = 6 -> Op("drop", <<s>>)
    [] k = 7 -> (IF R(1..4) = 1 THEN Op("par_into", <<s, R(0..1)>>) ELSE Op("into", <<s, R(0..5), R(0..3)>>))
    [] OTHER -> Op("contains", <<s, R(0..9)>>)

GRead(W, s) ==
  LET m == W[s + 1]  k == R(1..10) IN
  CASE k \in 1..3 -> Op("itermut", <<s, R(0..1), R(0..2)>>)
    [] k = 4 -> Op("iter", <<s, R(0..1)>>)
    [] k = 5 -> (LET x == R(0..3) IN Op("nth", <<s, x, Idx(IF x \in {0, 2} THEN m.nr ELSE m.nc)>>))
    [] k = 6 -> Op("elems", <<s>>)
    [] k = 7 -> Op("get", <<s, Idx(m.nr), Idx(m.nc), R(0..3)>>)
    [] k = 8 -> Op("index", <<s, Idx(m.nr), Idx(m.nc), R(0..3)>>)
    [] k = 9 -> Op(R({"set", "setx"}), <<s, Idx(m.nr), Idx(m.nc), R(1..99), R(0..3)>>)
    [] OTHER -> Op("fmt", <<s, R(0..1)>>)

Draw(W) ==
  LET s == R(LiveSlots(W))  k == R(1..20) IN
  IF LiveSlots(W) = {} \/ k = 1 THEN GCreate(W)
  ELSE CASE k \in 2..4 -> GOrder(s) [] k \in 5..7 -> GShape(W, s) [] k \in 8..9 -> GSwap(W, s)
         [] k \in 10..12 -> GBinary(W, s) [] k = 13 -> GMul(W, s) [] k \in 14..15 -> GMap(s)
         [] k \in 16..17 -> GMove(W, s) [] OTHER -> GRead(W, s)

Fits(W) == \A n \in 1..Len(W) : W[n].nr >= 0 /\ W[n].nc >= 0 /\ Len(W[n].mem) <= MaxSize

GInit == world = [n \in 1..NSlots |-> NoM] /\ prog = <<>>
GNext ==
  /\ Len(prog) < Depth
  /\ \E e0 \in {Draw(world)} :
       LET e == Canon(world, e0)
           x == Apply(T, world, e)
       IN IF Fits(x.W)
            THEN /\ world' = Relabel(x.W, 1, 0)
                 /\ prog' = Append(prog, <<e.op, e.a>>)
                 /\ Len(prog') = Depth => PrintT("PROG " \o ToJson(prog'))
            ELSE UNCHANGED <<world, prog>>
=============================================================================
