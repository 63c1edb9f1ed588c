INIT Init
NEXT Next
CONSTANTS MaxDim = 2
 MaxH = 2
 MaxW = 1
 Variant = "first"
INVARIANTS InCache Placed Complete Even
CHECK_DEADLOCK FALSE
