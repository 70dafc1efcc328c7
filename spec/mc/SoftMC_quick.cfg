SPECIFICATION Spec
CONSTANTS Vals = {0, 1}
 MaxLen = 3
 Lens = {1, 2, 3}
INVARIANTS Value AlignmentIsShare Corners SoftBelowHard GakValue GakSymmetric GakCauchy
CHECK_DEADLOCK FALSE
