---------------------------- MODULE TraceRender ------------------------------
(***************************************************************************)
(* Validates real formatted matrices (C20).  A line: nr, nc, the elements' *)
(* own texts d (Display) and g (Debug); hasd; disp0/disp1, dbg0/dbg1: the  *)
(* lines printed for either storage order ([-2] a panic); flags0/1: no     *)
(* panic under other format flags; huge: the outcome for 2^62 elements; alt: the same fields as printed by the  *)
(* other builds of the crate.                                              *)
(***************************************************************************)
EXTENDS Render, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, k
vars == <<sid, k>>

Mat(c, o, e) == [nr |-> c.nr, nc |-> c.nc, ord |-> o, e |-> e]
AcceptWide(c) ==
  /\ WideDisplay(Mat(c, 0, c.wide), c.disp0) /\ c.disp1 = c.disp0
  /\ WideDebug(Mat(c, 0, c.wide), c.dbg0) /\ WideDebug(Mat(c, 1, c.wide), c.dbg1)
Accept(c) == IF "huge" \in DOMAIN c THEN c.huge = "ok" ELSE IF "wide" \in DOMAIN c THEN AcceptWide(c) ELSE
  /\ "disp0" \in DOMAIN c
  /\ c.flags0 = 1 /\ c.flags1 = 1
  /\ c.hasd = 1 => Display(Mat(c, 0, c.d), c.disp0) /\ Display(Mat(c, 1, c.d), c.disp1)
                   /\ c.disp0 = c.disp1
  /\ Debug(Mat(c, 0, c.g), c.dbg0) /\ Debug(Mat(c, 1, c.g), c.dbg1)
  /\ \A i \in 1..Len(c.alt) :
       LET a == c.alt[i]
       IN /\ "disp0" \in DOMAIN a
          /\ a.flags0 = 1 /\ a.flags1 = 1
          /\ a.disp0 = c.disp0 /\ a.disp1 = c.disp1
          /\ a.dbg0 = c.dbg0 /\ a.dbg1 = c.dbg1
\* (as an expression: taken for an action, a quantifier over many rows nests too deeply)
Init == sid \in 1..Len(Tr) /\ k = 1
Next == \/ k = 1 /\ (Accept(Tr[sid]) = TRUE) /\ k' = 2 /\ UNCHANGED sid
        \/ k = 2 /\ UNCHANGED vars
=============================================================================
