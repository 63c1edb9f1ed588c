INIT Init
NEXT Next
CONSTANTS B = 6
 Design = "signed"
INVARIANTS Right NoOverflow
CHECK_DEADLOCK FALSE
