SPECIFICATION Spec
CONSTANTS Kinds = {"plain", "object", "network"}
 Depth = 3
INVARIANTS Durable RoundTrip
PROPERTIES Frame NoOverwrite
CHECK_DEADLOCK FALSE
