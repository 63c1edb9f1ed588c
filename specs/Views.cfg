INIT Init
NEXT Next
CONSTANTS MaxDim = 12
 Design = "fixed"
INVARIANTS Bijection RowsRight ColsRight
