SPECIFICATION Spec
CONSTANTS N = 4 W = 2 H = 1
INVARIANT Agrees
CHECK_DEADLOCK FALSE
