SPECIFICATION Spec
CONSTANTS Vals = {0, 1, 3, 6}
 MaxSz = 6
INVARIANTS MinMaxLaw ZLaw ResampleLaw ImputeLaw FillLaw
CHECK_DEADLOCK FALSE
