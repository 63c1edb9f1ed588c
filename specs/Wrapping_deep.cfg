INIT Init
NEXT Next
CONSTANTS B = 9
 Design = "code"
INVARIANTS Right NoOverflow
CHECK_DEADLOCK FALSE
