INIT Init
NEXT Next
INVARIANT Textbook
CONSTANT MaxDim = 4
CHECK_DEADLOCK FALSE
