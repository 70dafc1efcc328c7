SPECIFICATION Spec
CONSTANTS V = 1 N = 6 MaxD = 2 Seasons = {0, 2}
INVARIANTS Undoes Commute Steps Poly Exact MaTwo
CHECK_DEADLOCK FALSE
