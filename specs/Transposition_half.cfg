CONSTANTS MaxDim = 6
  Design = "half"
SPECIFICATION Spec
INVARIANTS InBounds Permutation Closed Done Once
PROPERTY Ends
