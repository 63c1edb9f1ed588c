INIT Init
NEXT Next
CONSTANTS N = 3
 M = 2
 Workers = {0, 1}
 Variant = "ok"
INVARIANTS Disjoint Sequential NoLostUpdate NoSharedUpdate
CHECK_DEADLOCK FALSE
