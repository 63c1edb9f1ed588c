INIT Init
NEXT Next
CONSTANTS B = 6
 Design = "abs"
INVARIANTS Right NoOverflow
CHECK_DEADLOCK FALSE
