SPECIFICATION TSpec
CONSTANTS
  Tasks <- TTasks
  N = 9
INVARIANTS Reached
CHECK_DEADLOCK FALSE
