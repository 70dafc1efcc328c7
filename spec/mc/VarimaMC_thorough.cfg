SPECIFICATION Spec
CONSTANTS V = 1 N = 8 MaxD = 3 Seasons = {0, 1, 2, 3}
INVARIANTS Undoes Commute Steps Poly Exact MaTwo
CHECK_DEADLOCK FALSE
