SPECIFICATION OSpec
CONSTANTS
  Tols <- OTols
INVARIANTS Symmetric Undirected Monotone
ACTION_CONSTRAINT OEmit
CHECK_DEADLOCK FALSE
