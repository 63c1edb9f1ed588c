INIT Init
NEXT Next
CONSTANTS B = 6
 Design = "noreduce"
INVARIANTS Right NoOverflow
CHECK_DEADLOCK FALSE
