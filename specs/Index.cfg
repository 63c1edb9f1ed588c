INIT Init
NEXT Next
CONSTANTS Max = 15
 MaxDim = 4
 Design = "once"
INVARIANTS InBounds Exact Injective
CHECK_DEADLOCK FALSE
