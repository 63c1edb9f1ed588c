INIT Init
NEXT Next
CONSTANTS B = 6
 MaxE = 9
 Design = "code"
INVARIANTS Right Coherent NeverTried
CHECK_DEADLOCK FALSE
