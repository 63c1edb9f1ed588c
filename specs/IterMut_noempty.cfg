SPECIFICATION Spec
CONSTANTS W = 16
 MaxDim = 2
 MaxElems = 4
 Sizes = {0, 1, 2}
 Design = "noempty"
INVARIANT Lengths
CHECK_DEADLOCK FALSE
