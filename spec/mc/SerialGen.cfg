SPECIFICATION GSpec
CONSTANTS Len0 = 9
INVARIANTS Emit
CHECK_DEADLOCK FALSE
