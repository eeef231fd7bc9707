SPECIFICATION OSpec
INVARIANT Sane
ACTION_CONSTRAINT OEmit
CHECK_DEADLOCK FALSE
