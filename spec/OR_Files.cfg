SPECIFICATION OSpec
INVARIANT Tree
ACTION_CONSTRAINT OEmit
CHECK_DEADLOCK FALSE
