SPECIFICATION Spec
CONSTANTS N = 5 W = 2 H = 2
INVARIANT Agrees
CHECK_DEADLOCK FALSE
