SPECIFICATION Spec
CONSTANTS Vals = {0, 1, 2, 5}
 N = 3
INVARIANTS Symmetric Bounded Self Aligned Rayleigh
CHECK_DEADLOCK FALSE
