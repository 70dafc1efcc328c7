SPECIFICATION Spec
CONSTANTS V = 2 N = 2 T = 2 D = 1 WMAX = 2
INVARIANTS Weights Symmetric Jensen Zero Order Mean Naive
CHECK_DEADLOCK FALSE
