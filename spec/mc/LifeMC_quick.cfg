SPECIFICATION Spec
CONSTANTS Depth = 3
INVARIANTS Config Fresh Unfitted
PROPERTIES Frame
CHECK_DEADLOCK FALSE
