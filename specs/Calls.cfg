INIT CInit
NEXT CNext
CONSTANTS MaxDim = 2
          NSlots = 4
CHECK_DEADLOCK FALSE
