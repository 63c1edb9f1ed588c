SPECIFICATION Spec
CONSTANTS W = 16
 MaxDim = 2
 MaxElems = 4
 Sizes = {0, 1, 2}
 Design = "fixed"
INVARIANTS PointersInBuffer NoOverflow RightElement AtMostOnce Lengths ExactlyOnce VectorsOnce
CHECK_DEADLOCK FALSE
