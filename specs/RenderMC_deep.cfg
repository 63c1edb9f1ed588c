INIT Init
NEXT Next
CONSTANTS MaxDim = 3
 MaxH = 2
 MaxW = 0
 Variant = "none"
INVARIANTS InCache Placed Complete Even
CHECK_DEADLOCK FALSE
