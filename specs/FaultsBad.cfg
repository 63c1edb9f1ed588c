INIT Init
NEXT Next
INVARIANTS Safe Once
CONSTANTS MaxDim = 2
 ShapeFirst = TRUE
CHECK_DEADLOCK FALSE
