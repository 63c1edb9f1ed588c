INIT Init
NEXT Next
INVARIANT Inv
CONSTANTS MaxDim = 3
CHECK_DEADLOCK FALSE
