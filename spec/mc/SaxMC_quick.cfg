SPECIFICATION Spec
CONSTANTS Vals = {0, 5}
 N = 2
 W = 2
 Alpha = 5
INVARIANTS PaaBound SaxBound Monotone SlopeShift SlopeLine
CHECK_DEADLOCK FALSE
