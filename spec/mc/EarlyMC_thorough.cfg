SPECIFICATION Spec
CONSTANTS T = 4 EV = {0, 3000} CT = {0, 400, 1500, 5000}
INVARIANTS Rule InTime Past Prompt Patient Convex Logi LogiValues
CHECK_DEADLOCK FALSE
