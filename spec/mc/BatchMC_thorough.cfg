SPECIFICATION Spec
CONSTANTS N = 3
 L = 2
 Depth = 3
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
