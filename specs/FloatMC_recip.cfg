INIT Init
NEXT Next
CONSTANT Variant = "recip"
INVARIANT Agrees
