CONSTANTS MaxDim = 6
  Design = "old"
SPECIFICATION Spec
INVARIANTS InBounds Permutation Closed Done Once
PROPERTY Ends
