SPECIFICATION Spec
CONSTANTS W = 16
 MaxDim = 3
 MaxElems = 6
 Sizes = {0, 2}
 Design = "fixed"
INVARIANTS PointersInBuffer NoOverflow RightElement AtMostOnce Lengths ExactlyOnce VectorsOnce
CHECK_DEADLOCK FALSE
