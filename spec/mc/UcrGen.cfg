SPECIFICATION GSpec
CONSTANTS Names = {"Alpha", "Beta", "AtrialFibrillation"}
 Versions = {1, 2, 3}
 Len0 = 12
INVARIANTS Emit
CHECK_DEADLOCK FALSE
