SPECIFICATION Spec
CONSTANTS V = 1 Depth = 3
INVARIANTS Formula Probs Uniform Kept Trained
CHECK_DEADLOCK FALSE
