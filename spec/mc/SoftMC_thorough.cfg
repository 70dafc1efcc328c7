SPECIFICATION Spec
CONSTANTS Vals = {0, 1, 3}
 MaxLen = 3
 Lens = {1, 2, 3, 4}
INVARIANTS Value AlignmentIsShare Corners SoftBelowHard GakValue GakSymmetric GakCauchy
CHECK_DEADLOCK FALSE
