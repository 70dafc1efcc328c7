SPECIFICATION Spec
CONSTANTS N = 5 K = 3 DM = 3 C = 3
INVARIANTS Nearest SameDistances Prefix Size Vote
CHECK_DEADLOCK FALSE
