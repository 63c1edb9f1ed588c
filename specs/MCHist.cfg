INIT Init
NEXT Next
INVARIANT Inv
CONSTANTS MaxDim = 2
          NSlots = 2
CHECK_DEADLOCK FALSE
