SPECIFICATION Spec
CONSTANTS N = 2
 L = 2
 Depth = 3
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
