INIT Init
NEXT Next
CONSTANT Variant = "trunc"
INVARIANT Agrees
