SPECIFICATION Spec
CONSTANTS Vals = {0, 1, 3}
 MaxLen = 3
INVARIANTS Descent NonEmpty Hull Fixed
CHECK_DEADLOCK FALSE
