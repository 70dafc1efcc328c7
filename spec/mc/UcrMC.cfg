SPECIFICATION Spec
CONSTANTS Names = {"Alpha", "Beta"}
 Versions = {1, 2}
INVARIANTS TypeOk ReturnsCached Offline
PROPERTIES Keeps Frame
CHECK_DEADLOCK FALSE
