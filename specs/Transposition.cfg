CONSTANTS MaxDim = 6
  Design = "code"
SPECIFICATION Spec
INVARIANTS InBounds Permutation Closed Done Once
PROPERTY Ends
