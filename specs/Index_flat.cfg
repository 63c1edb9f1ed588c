INIT Init
NEXT Next
CONSTANTS Max = 15
 MaxDim = 4
 Design = "flat"
INVARIANTS InBounds Exact Injective
CHECK_DEADLOCK FALSE
