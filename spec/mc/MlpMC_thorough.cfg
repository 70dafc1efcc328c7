SPECIFICATION Spec
CONSTANTS V = 2 Depth = 4
INVARIANTS Formula Probs Uniform Kept Trained
CHECK_DEADLOCK FALSE
