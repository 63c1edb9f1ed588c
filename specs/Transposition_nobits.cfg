CONSTANTS MaxDim = 6
  Design = "nobits"
SPECIFICATION Spec
INVARIANTS InBounds Permutation Closed Done Once
PROPERTY Ends
