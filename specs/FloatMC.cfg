INIT Init
NEXT Next
CONSTANT Variant = "code"
INVARIANT Agrees
