INIT GInit
NEXT GNext
CONSTANTS MaxDim = 4
          NSlots = 4
          Depth = 14
          MaxSize = 24
CHECK_DEADLOCK FALSE
