SPECIFICATION Spec
CONSTANTS V = 1 N = 2 T = 2 D = 2 WMAX = 1
INVARIANTS Weights Symmetric Jensen Zero Order Mean Naive
CHECK_DEADLOCK FALSE
