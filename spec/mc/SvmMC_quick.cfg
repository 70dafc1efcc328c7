SPECIFICATION Spec
CONSTANTS N = 3 XM = 1 CAP = 6 GRID = 4
INVARIANTS InRange Optimal Bal Separated
CHECK_DEADLOCK FALSE
