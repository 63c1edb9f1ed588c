INIT Init
NEXT Next
CONSTANTS Bits = 3
 Len0 = 1
 Variant = "swap"
INVARIANTS Elementwise Once Agrees
CHECK_DEADLOCK FALSE
