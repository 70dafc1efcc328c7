SPECIFICATION Spec
CONSTANTS T = 3 EV = {0, 3000} CT = {0, 1000, 5000}
INVARIANTS Rule InTime Past Prompt Patient Convex Logi LogiValues
CHECK_DEADLOCK FALSE
