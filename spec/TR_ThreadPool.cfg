SPECIFICATION TSpec
CONSTANTS
  Tasks <- TTasks
  N = 9
INVARIANTS Report NothingAfterFinish
CHECK_DEADLOCK FALSE
