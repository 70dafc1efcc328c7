SPECIFICATION Spec
CONSTANTS N = 4 XM = 2 CAP = 8 GRID = 8
INVARIANTS InRange Optimal Bal Separated
CHECK_DEADLOCK FALSE
