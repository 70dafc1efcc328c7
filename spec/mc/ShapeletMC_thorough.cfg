SPECIFICATION Spec
CONSTANTS Vals = {0, 1, 2, 4}
 MaxLen = 6
 Shapes <- DefShapes
INVARIANTS ZeroIffOccurs Attained ReverseBoth Affine InUnit Shifted
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
