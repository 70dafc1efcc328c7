SPECIFICATION Spec
CONSTANTS Vals = {0, 1, 2, 4, 7}
 N = 4
 K = 2
INVARIANTS Density SilRange
PROPERTIES Descent Ends
CHECK_DEADLOCK FALSE
