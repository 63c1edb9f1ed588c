INIT Init
NEXT Next
CONSTANTS Bits = 3
 Len0 = 1
 Variant = "euclid"
INVARIANTS Elementwise Once Agrees
CHECK_DEADLOCK FALSE
