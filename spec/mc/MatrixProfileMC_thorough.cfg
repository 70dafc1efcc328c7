SPECIFICATION Spec
CONSTANTS V = 2 N = 8 M = 5
INVARIANTS Reversal Grows Pair Affine Bounds Short SqrtOk
CHECK_DEADLOCK FALSE
