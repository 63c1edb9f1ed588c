INIT Init
NEXT Next
CONSTANTS Bits = 3
 Len0 = 2
 Variant = "none"
INVARIANTS Elementwise Once Agrees
CHECK_DEADLOCK FALSE
