INIT Init
NEXT Next
CONSTANTS B = 4
 MaxE = 5
 Design = "strict"
INVARIANTS Right Coherent NeverTried
CHECK_DEADLOCK FALSE
