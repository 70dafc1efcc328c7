SPECIFICATION GSpec
CONSTANTS Len0 = 8
INVARIANTS Emit
CHECK_DEADLOCK FALSE
