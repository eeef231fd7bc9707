SPECIFICATION OSpec
INVARIANT Legal
ACTION_CONSTRAINT OEmit
CHECK_DEADLOCK FALSE
