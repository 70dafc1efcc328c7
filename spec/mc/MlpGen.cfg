SPECIFICATION GSpec
CONSTANTS Len0 = 12
INVARIANTS Emit
CHECK_DEADLOCK FALSE
