SPECIFICATION Spec
CONSTANTS Vals = {0, 1, 3}
 MaxSz = 4
INVARIANTS MinMaxLaw ZLaw ResampleLaw ImputeLaw FillLaw
CHECK_DEADLOCK FALSE
