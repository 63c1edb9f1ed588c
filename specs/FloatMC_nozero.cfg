INIT Init
NEXT Next
CONSTANT Variant = "nozero"
INVARIANT Agrees
