INIT Init
NEXT Next
CONSTANTS N = 2
 M = 2
 Workers = {0, 1}
 Variant = "nosync"
INVARIANTS Disjoint Sequential NoLostUpdate NoSharedUpdate
CHECK_DEADLOCK FALSE
