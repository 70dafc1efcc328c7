SPECIFICATION Spec
CONSTANTS Vals = {0, 1, 5}
 N = 2
 W = 2
 Alpha = 8
INVARIANTS PaaBound SaxBound Monotone SlopeShift SlopeLine
CHECK_DEADLOCK FALSE
