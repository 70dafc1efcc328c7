SPECIFICATION Spec
CONSTANTS Seeds = {1, 2} Calls = {1, 2} Depth = 7
INVARIANTS Sound Stays LabelsOk
CHECK_DEADLOCK FALSE
