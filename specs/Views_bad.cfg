INIT Init
NEXT Next
CONSTANTS MaxDim = 12
 Design = "nostep"
INVARIANTS Bijection RowsRight ColsRight
