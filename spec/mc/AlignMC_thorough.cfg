SPECIFICATION Spec
CONSTANTS Vals = {0, 1}
 MaxLen = 4
INVARIANTS NoBetter Attained NoLonger LcssAttained Laws
PROPERTIES BackArrives CBackArrives
CHECK_DEADLOCK FALSE
