SPECIFICATION Spec
CONSTANTS Vals = {0, 1, 2}
 MaxLen = 2
INVARIANTS NoBetter Attained NoLonger LcssAttained Laws
PROPERTIES BackArrives CBackArrives
CHECK_DEADLOCK FALSE
