SPECIFICATION Spec
CONSTANTS Kinds = {"plain", "object", "closure", "network", "sklearn"}
 Depth = 4
INVARIANTS Durable RoundTrip
PROPERTIES Frame NoOverwrite
CHECK_DEADLOCK FALSE
