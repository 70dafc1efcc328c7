SPECIFICATION Spec
CONSTANTS Vals = {0, 1}
 MaxN = 2
 MaxSz = 3
 Dims = {1}
INVARIANTS Idempotent SizesKept Tight EqualMeansNoPadding PytsBack SeglearnBack TsfreshBack SktimeBack
CHECK_DEADLOCK FALSE
