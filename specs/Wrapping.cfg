INIT Init
NEXT Next
CONSTANTS B = 6
 Design = "code"
INVARIANTS Right NoOverflow
CHECK_DEADLOCK FALSE
