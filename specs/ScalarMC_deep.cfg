INIT Init
NEXT Next
CONSTANTS Bits = 5
 Len0 = 1
 Variant = "none"
INVARIANTS Elementwise Once Agrees
CHECK_DEADLOCK FALSE
