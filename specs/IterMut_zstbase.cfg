SPECIFICATION Spec
CONSTANTS W = 5
 MaxDim = 2
 MaxElems = 4
 Sizes = {0, 1, 2}
 Design = "zstbase"
INVARIANT NoOverflow
CHECK_DEADLOCK FALSE
