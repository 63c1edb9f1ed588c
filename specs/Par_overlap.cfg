INIT Init
NEXT Next
CONSTANTS MaxN = 4
 Workers = {w1, w2}
 Design = "overlap"
INVARIANTS Once Equal
CHECK_DEADLOCK FALSE
