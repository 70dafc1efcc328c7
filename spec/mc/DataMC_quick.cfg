SPECIFICATION Spec
CONSTANTS Vals = {0}
 MaxN = 2
 MaxSz = 2
 Dims = {1, 2}
INVARIANTS Idempotent SizesKept Tight EqualMeansNoPadding PytsBack SeglearnBack TsfreshBack SktimeBack
CHECK_DEADLOCK FALSE
