SPECIFICATION Spec
CONSTANTS V = 2 N = 6 M = 4
INVARIANTS Reversal Grows Pair Affine Bounds Short SqrtOk
CHECK_DEADLOCK FALSE
