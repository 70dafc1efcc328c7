SPECIFICATION Spec
CONSTANTS Depth = 5
INVARIANTS Config Fresh Unfitted
PROPERTIES Frame
CHECK_DEADLOCK FALSE
