SPECIFICATION Spec
CONSTANTS Vals = {0, 1, 3}
 N = 3
 K = 2
INVARIANTS Density SilRange
PROPERTIES Descent Ends
CHECK_DEADLOCK FALSE
