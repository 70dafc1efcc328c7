SPECIFICATION GSpec
CONSTANTS N = 4
 L = 5
 Len0 = 6
INVARIANTS Emit
CHECK_DEADLOCK FALSE
