SPECIFICATION Spec
CONSTANTS N = 4 K = 2 DM = 2 C = 2
INVARIANTS Nearest SameDistances Prefix Size Vote
CHECK_DEADLOCK FALSE
