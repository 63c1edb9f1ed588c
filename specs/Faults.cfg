INIT Init
NEXT Next
INVARIANTS Safe Once
CONSTANTS MaxDim = 2
 ShapeFirst = FALSE
CHECK_DEADLOCK FALSE
